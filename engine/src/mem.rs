//! Byte-addressed object memory with a symbolic overlay, copied on write.
use crate::expr::*;
use crate::ir::*;
use std::sync::Arc;

pub type SymByte = Option<(N, u8)>;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<[SymByte]>>,
}

impl Obj {
    pub fn zeroed(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None }
    }
}

const CH: usize = 64;
#[derive(Clone)]
pub struct Chunk([Option<Arc<Obj>>; CH]);

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Arc<Chunk>>,
    free: Vec<u32>,
    next: u32,
    globals: FxMap<u32, Arc<Obj>>,
    pub live: u32,
}

pub enum MemErr {
    Bad(String),
}

fn concrete_bytes(v: u128, n: usize) -> [u8; 16] {
    let b = v.to_le_bytes();
    let _ = n;
    b
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], free: vec![], next: 0, globals: Default::default(), live: 0 }
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        self.alloc_obj(Obj::zeroed(size))
    }
    pub fn alloc_obj(&mut self, o: Obj) -> u64 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.next;
                self.next += 1;
                if i as usize / CH >= self.chunks.len() {
                    self.chunks.push(Arc::new(Chunk(std::array::from_fn(|_| None))));
                }
                i
            }
        };
        let c = Arc::make_mut(&mut self.chunks[id as usize / CH]);
        c.0[id as usize % CH] = Some(Arc::new(o));
        self.live += 1;
        (HEAP_BASE + id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MemErr> {
        let id = addr >> 32;
        if id < HEAP_BASE || id >= HEAP_BASE + self.next as u64 || addr as u32 != 0 {
            return Err(MemErr::Bad(format!("free of {addr:#x}")));
        }
        let id = (id - HEAP_BASE) as usize;
        let c = Arc::make_mut(&mut self.chunks[id / CH]);
        if c.0[id % CH].take().is_none() {
            return Err(MemErr::Bad(format!("double free of {addr:#x}")));
        }
        self.free.push(id as u32);
        self.live -= 1;
        Ok(())
    }
    #[inline]
    fn heap(&self, id: u64) -> Option<&Arc<Obj>> {
        let i = (id - HEAP_BASE) as usize;
        self.chunks.get(i / CH)?.0[i % CH].as_ref()
    }
    #[inline]
    pub fn size(&self, m: &Module, addr: u64) -> Option<usize> {
        let id = addr >> 32;
        if id >= HEAP_BASE {
            if id >= FN_BASE {
                return None;
            }
            self.heap(id).map(|o| o.data.len())
        } else if id == 0 {
            None
        } else {
            m.globals.get(id as usize - 1).map(|g| g.size as usize)
        }
    }
    /// Data and overlay of the object behind `addr`.
    #[inline]
    pub fn get<'a>(&'a self, m: &'a Module, addr: u64) -> Option<(&'a [u8], Option<&'a [SymByte]>)> {
        let id = addr >> 32;
        if id >= HEAP_BASE {
            if id >= FN_BASE {
                return None;
            }
            let o = self.heap(id)?;
            Some((&o.data, o.sym.as_deref()))
        } else if id == 0 {
            None
        } else {
            let g = m.globals.get(id as usize - 1)?;
            if !g.constant {
                if let Some(o) = self.globals.get(&(id as u32)) {
                    return Some((&o.data, o.sym.as_deref()));
                }
            }
            Some((m.global_data(id as usize - 1), None))
        }
    }
    #[inline]
    pub fn get_mut(&mut self, m: &Module, addr: u64) -> Option<&mut Obj> {
        let id = addr >> 32;
        if id >= HEAP_BASE {
            if id >= FN_BASE {
                return None;
            }
            let i = (id - HEAP_BASE) as usize;
            let c = Arc::make_mut(self.chunks.get_mut(i / CH)?);
            c.0[i % CH].as_mut().map(Arc::make_mut)
        } else if id == 0 {
            None
        } else {
            let gi = id as usize - 1;
            let g = m.globals.get(gi)?;
            if g.constant {
                return None;
            }
            let e = self
                .globals
                .entry(id as u32)
                .or_insert_with(|| Arc::new(Obj { data: m.global_data(gi).to_vec(), sym: None }));
            Some(Arc::make_mut(e))
        }
    }

    #[inline]
    pub fn load(&self, m: &Module, addr: u64, w: u32) -> Result<Val, MemErr> {
        let n = w.div_ceil(8) as usize;
        let off = addr as u32 as usize;
        let Some((data, sym)) = self.get(m, addr) else {
            return Err(MemErr::Bad(format!("load of {n} bytes at {addr:#x}")));
        };
        if off + n > data.len() {
            return Err(MemErr::Bad(format!("load of {n} bytes at {addr:#x} (object has {})", data.len())));
        }
        if let Some(s) = sym {
            if s[off..off + n].iter().any(|b| b.is_some()) {
                return Ok(Self::load_sym(&data[off..off + n], &s[off..off + n], w));
            }
        }
        if n <= 8 {
            let v = match n {
                8 => u64::from_le_bytes(data[off..off + 8].try_into().unwrap()),
                4 => u32::from_le_bytes(data[off..off + 4].try_into().unwrap()) as u64,
                1 => data[off] as u64,
                2 => u16::from_le_bytes(data[off..off + 2].try_into().unwrap()) as u64,
                _ => {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&data[off..off + n]);
                    u64::from_le_bytes(b)
                }
            };
            Ok(Val::I(v & mask64(w)))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&data[off..off + n]);
            Ok(Val::S(konst(w, u128::from_le_bytes(b))))
        }
    }
    #[cold]
    fn load_sym(data: &[u8], sym: &[SymByte], w: u32) -> Val {
        let n = data.len();
        // Whole value from one node?
        if let Some((x, 0)) = sym[0] {
            if (x.w as usize).div_ceil(8) == n && (1..n).all(|i| matches!(sym[i], Some((y, k)) if std::ptr::eq(x, y) && k as usize == i)) {
                let xw = x.w as u32;
                return to_val(if xw == w {
                    x
                } else if xw > w {
                    extract(x, 0, w)
                } else {
                    zext(x, w)
                });
            }
        }
        let mut acc: Option<N> = None;
        for i in (0..n).rev() {
            let b = Self::byte(data, sym, i);
            acc = Some(match acc {
                None => b,
                Some(h) => concat(h, b),
            });
        }
        let a = acc.unwrap();
        to_val(if (a.w as u32) > w { extract(a, 0, w) } else { a })
    }
    fn byte(data: &[u8], sym: &[SymByte], i: usize) -> N {
        match sym[i] {
            None => konst(8, data[i] as u128),
            Some((x, k)) => {
                let lo = k as u32 * 8;
                let xw = x.w as u32;
                if lo + 8 <= xw {
                    extract(x, lo, 8)
                } else {
                    zext(extract(x, lo, xw - lo), 8)
                }
            }
        }
    }
    pub fn load_byte(&self, m: &Module, addr: u64) -> Result<Val, MemErr> {
        self.load(m, addr, 8)
    }

    #[inline]
    pub fn store(&mut self, m: &Module, addr: u64, w: u32, v: Val) -> Result<(), MemErr> {
        let n = w.div_ceil(8) as usize;
        let off = addr as u32 as usize;
        let Some(o) = self.get_mut(m, addr) else {
            return Err(MemErr::Bad(format!("store of {n} bytes at {addr:#x}")));
        };
        if off + n > o.data.len() {
            return Err(MemErr::Bad(format!("store of {n} bytes at {addr:#x} (object has {})", o.data.len())));
        }
        match v {
            Val::I(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for b in &mut s[off..off + n] {
                        *b = None;
                    }
                }
            }
            Val::S(x) if x.is_const() => {
                o.data[off..off + n].copy_from_slice(&concrete_bytes(x.c, n)[..n]);
                if let Some(s) = &mut o.sym {
                    for b in &mut s[off..off + n] {
                        *b = None;
                    }
                }
            }
            Val::S(x) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![None; len].into_boxed_slice());
                for i in 0..n {
                    s[off + i] = Some((x, i as u8));
                }
            }
        }
        Ok(())
    }
    /// memmove of concrete length.
    pub fn copy(&mut self, m: &Module, dst: u64, src: u64, n: usize) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        let so = src as u32 as usize;
        let Some((data, sym)) = self.get(m, src) else {
            return Err(MemErr::Bad(format!("copy of {n} bytes from {src:#x}")));
        };
        if so + n > data.len() {
            return Err(MemErr::Bad(format!("copy of {n} bytes from {src:#x} (object has {})", data.len())));
        }
        let mut small = [0u8; 256];
        let mut big;
        let buf: &[u8] = if n <= 256 {
            small[..n].copy_from_slice(&data[so..so + n]);
            &small[..n]
        } else {
            big = vec![0u8; n];
            big.copy_from_slice(&data[so..so + n]);
            &big
        };
        let sb: Option<Vec<SymByte>> = match sym {
            Some(s) if s[so..so + n].iter().any(|b| b.is_some()) => Some(s[so..so + n].to_vec()),
            _ => None,
        };
        let d = dst as u32 as usize;
        let Some(o) = self.get_mut(m, dst) else {
            return Err(MemErr::Bad(format!("copy of {n} bytes to {dst:#x}")));
        };
        if d + n > o.data.len() {
            return Err(MemErr::Bad(format!("copy of {n} bytes to {dst:#x} (object has {})", o.data.len())));
        }
        o.data[d..d + n].copy_from_slice(buf);
        match sb {
            Some(sb) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![None; len].into_boxed_slice());
                s[d..d + n].copy_from_slice(&sb);
            }
            None => {
                if let Some(s) = &mut o.sym {
                    for b in &mut s[d..d + n] {
                        *b = None;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn fill(&mut self, m: &Module, dst: u64, v: Val, n: usize) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        match v {
            Val::I(b) => {
                let d = dst as u32 as usize;
                let Some(o) = self.get_mut(m, dst) else {
                    return Err(MemErr::Bad(format!("fill of {n} bytes at {dst:#x}")));
                };
                if d + n > o.data.len() {
                    return Err(MemErr::Bad(format!("fill of {n} bytes at {dst:#x} (object has {})", o.data.len())));
                }
                o.data[d..d + n].fill(b as u8);
                if let Some(s) = &mut o.sym {
                    for b in &mut s[d..d + n] {
                        *b = None;
                    }
                }
                Ok(())
            }
            v => {
                for i in 0..n as u64 {
                    self.store(m, dst + i, 8, v)?;
                }
                Ok(())
            }
        }
    }
    /// Reallocate: contents preserved up to the smaller size.
    pub fn realloc(&mut self, m: &Module, addr: u64, size: usize) -> Result<u64, MemErr> {
        let Some(o) = self.get_mut(m, addr) else {
            return Err(MemErr::Bad(format!("realloc of {addr:#x}")));
        };
        o.data.resize(size, 0);
        if let Some(s) = o.sym.take() {
            let mut v = s.into_vec();
            v.resize(size, None);
            o.sym = Some(v.into_boxed_slice());
        }
        // The object moves: code that keeps the old pointer is wrong, so give it a new id.
        let o = std::mem::take(o);
        let new = self.alloc_obj(o);
        self.free(addr)?;
        Ok(new)
    }
    pub fn cstr(&self, m: &Module, addr: u64) -> Option<String> {
        let (d, _) = self.get(m, addr)?;
        let o = addr as u32 as usize;
        let e = d[o..].iter().position(|b| *b == 0)?;
        Some(String::from_utf8_lossy(&d[o..o + e]).into_owned())
    }
    pub fn bytes(&self, m: &Module, addr: u64, n: usize) -> Option<Vec<u8>> {
        let (d, _) = self.get(m, addr)?;
        let o = addr as u32 as usize;
        d.get(o..o + n).map(|x| x.to_vec())
    }
}
