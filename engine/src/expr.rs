//! Hash-consed bit-vector expressions with a small simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

pub struct Node {
    pub op: Op,
    pub w: u16,
    pub lo: u16,
    /// Number of operands.
    pub n: u8,
    /// Const value or variable index.
    pub c: u128,
    pub k: [u32; 3],
    pub kp: [Option<&'static Node>; 3],
    /// Bit set of the symbolic variables below this node.
    pub vars: u128,
    pub id: u32,
    /// True if every leaf of an ITE tree is a constant (and the tree is small).
    pub leafy: u16,
}

pub type N = &'static Node;

impl Node {
    #[inline]
    pub fn kid(&self, i: usize) -> N {
        self.kp[i].unwrap()
    }
    #[inline]
    pub fn is_const(&self) -> bool {
        self.op == Op::Const
    }
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.op {
            Op::Const => write!(f, "{:#x}:{}", self.c, self.w),
            Op::Var => write!(f, "v{}:{}", self.c, self.w),
            Op::Extract => write!(f, "(ex {} +{} {:?})", self.w, self.lo, self.kid(0)),
            _ => {
                write!(f, "({:?}:{}", self.op, self.w)?;
                for i in 0..self.n as usize {
                    write!(f, " {:?}", self.kid(i))?;
                }
                write!(f, ")")
            }
        }
    }
}

#[derive(Clone, Copy)]
pub enum Val {
    /// Concrete, at most 64 bits wide, always masked to its width.
    I(u64),
    /// Symbolic, or wider than 64 bits.
    S(N),
}

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(PartialEq, Eq, Hash)]
struct Key(Op, u16, u16, u128, [u32; 3]);

const SHARDS: usize = 64;
type Shard = Mutex<FxMap<Key, N>>;
static TABLE: OnceLock<Vec<Shard>> = OnceLock::new();
static NEXT: AtomicU32 = AtomicU32::new(1);

pub fn node_count() -> u32 {
    NEXT.load(Ordering::Relaxed)
}

fn intern(op: Op, w: u16, lo: u16, c: u128, kids: &[N]) -> N {
    let mut k = [0u32; 3];
    let mut kp = [None; 3];
    let mut vars = 0u128;
    for (i, n) in kids.iter().enumerate() {
        k[i] = n.id;
        kp[i] = Some(*n);
        vars |= n.vars;
    }
    let key = Key(op, w, lo, c, k);
    let table = TABLE.get_or_init(|| (0..SHARDS).map(|_| Mutex::new(Default::default())).collect());
    let mut h = Fx::default();
    std::hash::Hash::hash(&key, &mut h);
    let shard = &table[(h.finish() >> 40) as usize % SHARDS];
    let mut t = shard.lock().unwrap();
    if let Some(n) = t.get(&key) {
        return n;
    }
    if op == Op::Var {
        vars = 1u128 << (c as u32 & 127);
    }
    let leafy = match op {
        Op::Const => 1,
        Op::Ite => {
            let (a, b) = (kids[1].leafy, kids[2].leafy);
            if a > 0 && b > 0 && a + b <= 24 {
                a + b
            } else {
                0
            }
        }
        _ => 0,
    };
    let n: N = Box::leak(Box::new(Node {
        op,
        w,
        lo,
        n: kids.len() as u8,
        c,
        k,
        kp,
        vars,
        id: NEXT.fetch_add(1, Ordering::Relaxed),
        leafy,
    }));
    t.insert(key, n);
    n
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn konst(w: u32, c: u128) -> N {
    assert!(w <= 128, "constant wider than 128 bits");
    intern(Op::Const, w as u16, 0, c & mask(w), &[])
}
pub fn var(w: u32, idx: u32) -> N {
    assert!(idx < 128, "too many symbolic variables");
    intern(Op::Var, w as u16, 0, idx as u128, &[])
}

pub fn fold2(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        // SMT-LIB semantics for division by zero; the executor never gets here with b == 0.
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext128(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    };
    r
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn not1(a: N) -> N {
    debug_assert_eq!(a.w, 1);
    bin(Op::Xor, a, konst(1, 1))
}
fn is_not1(n: N) -> Option<N> {
    if n.op == Op::Xor && n.w == 1 && n.kid(1).is_const() && n.kid(1).c == 1 {
        Some(n.kid(0))
    } else {
        None
    }
}

fn map_leaves(t: N, f: &dyn Fn(N) -> N) -> N {
    if t.op == Op::Ite {
        ite(t.kid(0), map_leaves(t.kid(1), f), map_leaves(t.kid(2), f))
    } else {
        f(t)
    }
}

pub fn bin(op: Op, mut a: N, mut b: N) -> N {
    let w = a.w as u32;
    debug_assert_eq!(a.w, b.w, "{:?}", op);
    let rw = if is_cmp(op) { 1 } else { w };
    if a.is_const() && b.is_const() {
        return konst(rw, fold2(op, w, a.c, b.c));
    }
    // Constants to the right for commutative operators.
    let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    if commut && (a.is_const() || (!b.is_const() && a.id > b.id)) {
        std::mem::swap(&mut a, &mut b);
    }
    let m = mask(w);
    if b.is_const() {
        let c = b.c;
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if c == 0 => return a,
            Op::And if c == 0 => return b,
            Op::And if c == m => return a,
            Op::Or if c == m => return b,
            Op::Mul if c == 0 => return b,
            Op::Mul if c == 1 => return a,
            Op::UDiv if c == 1 => return a,
            Op::Shl | Op::LShr if c >= w as u128 => return konst(w, 0),
            Op::Ult if c == 0 => return konst(1, 0),
            Op::Ule if c == m => return konst(1, 1),
            Op::Ult if c == 1 => return bin(Op::Eq, a, konst(w, 0)),
            Op::Ule if c == 0 => return bin(Op::Eq, a, konst(w, 0)),
            _ => {}
        }
        // Reassociate constants.
        match op {
            Op::Add | Op::Xor | Op::And | Op::Or if a.op == op && a.kid(1).is_const() => {
                return bin(op, a.kid(0), konst(w, fold2(op, w, a.kid(1).c, c)));
            }
            Op::Sub => return bin(Op::Add, a, konst(w, c.wrapping_neg())),
            Op::Eq if a.op == Op::Add && a.kid(1).is_const() => {
                return bin(Op::Eq, a.kid(0), konst(w, c.wrapping_sub(a.kid(1).c)));
            }
            Op::Eq if a.op == Op::Xor && a.kid(1).is_const() => {
                return bin(Op::Eq, a.kid(0), konst(w, c ^ a.kid(1).c));
            }
            Op::Shl => {
                // constant shift left: extract + concat
                let s = c as u32;
                return concat(extract(a, 0, w - s), konst(s, 0));
            }
            Op::LShr => {
                let s = c as u32;
                return zext(extract(a, s, w - s), w);
            }
            Op::And if (c + 1).is_power_of_two() && c != 0 => {
                let k = c.count_ones();
                return zext(extract(a, 0, k), w);
            }
            Op::UDiv if c.is_power_of_two() => return bin(Op::LShr, a, konst(w, c.trailing_zeros() as u128)),
            Op::URem if c.is_power_of_two() => return bin(Op::And, a, konst(w, c - 1)),
            Op::Mul if c.is_power_of_two() => return bin(Op::Shl, a, konst(w, c.trailing_zeros() as u128)),
            _ => {}
        }
        if a.op == Op::ZExt {
            let x = a.kid(0);
            let xw = x.w as u32;
            match op {
                Op::Eq => {
                    return if c > mask(xw) { konst(1, 0) } else { bin(Op::Eq, x, konst(xw, c)) };
                }
                Op::Ult => {
                    return if c > mask(xw) { konst(1, 1) } else { bin(Op::Ult, x, konst(xw, c)) };
                }
                Op::Ule => {
                    return if c >= mask(xw) { konst(1, 1) } else { bin(Op::Ule, x, konst(xw, c)) };
                }
                Op::Slt if c >> (w - 1) == 0 => {
                    return if c > mask(xw) { konst(1, 1) } else { bin(Op::Ult, x, konst(xw, c)) };
                }
                Op::Slt => return konst(1, 0),
                Op::And => return zext(bin(Op::And, x, konst(xw, c)), w),
                _ => {}
            }
        }
        if op == Op::Eq && a.op == Op::Concat {
            let (h, l) = (a.kid(0), a.kid(1));
            let lw = l.w as u32;
            return bin(
                Op::And,
                bin(Op::Eq, h, konst(h.w as u32, c >> lw)),
                bin(Op::Eq, l, konst(lw, c)),
            );
        }
        if op == Op::Eq && w == 1 {
            return if c == 1 { a } else { not1(a) };
        }
        if op == Op::Eq && a.op == Op::Ite && a.leafy == 0 {
            // push equality into a non-leafy ite if one side decides
            let (x, y) = (bin(Op::Eq, a.kid(1), b), bin(Op::Eq, a.kid(2), b));
            if x.is_const() || y.is_const() {
                return ite(a.kid(0), x, y);
            }
        }
        if op == Op::Xor && w == 1 && c == 1 {
            if let Some(x) = is_not1(a) {
                return x;
            }
            if a.op == Op::Ite && a.leafy > 0 {
                return ite(a.kid(0), not1(a.kid(1)), not1(a.kid(2)));
            }
        }
    } else if a.is_const() {
        match op {
            Op::Sub | Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem if a.c == 0 && op != Op::Sub => return a,
            Op::Ult if a.c == m => return konst(1, 0),
            Op::Ule if a.c == 0 => return konst(1, 1),
            _ => {}
        }
        if b.op == Op::ZExt {
            let x = b.kid(0);
            let xw = x.w as u32;
            match op {
                Op::Ult => {
                    return if a.c >= mask(xw) { konst(1, 0) } else { bin(Op::Ult, konst(xw, a.c), x) };
                }
                Op::Ule => {
                    return if a.c > mask(xw) { konst(1, 0) } else { bin(Op::Ule, konst(xw, a.c), x) };
                }
                Op::Slt if a.c >> (w - 1) == 0 => {
                    return if a.c >= mask(xw) { konst(1, 0) } else { bin(Op::Ult, konst(xw, a.c), x) };
                }
                Op::Slt => return konst(1, 1),
                _ => {}
            }
        }
    }
    if std::ptr::eq(a, b) {
        match op {
            Op::Eq | Op::Ule | Op::Sle => return konst(1, 1),
            Op::Ult | Op::Slt => return konst(1, 0),
            Op::Sub | Op::Xor => return konst(w, 0),
            Op::And | Op::Or => return a,
            _ => {}
        }
    }
    if w == 1 && !b.is_const() {
        if is_not1(a).is_some_and(|x| std::ptr::eq(x, b)) || is_not1(b).is_some_and(|x| std::ptr::eq(x, a)) {
            match op {
                Op::And => return konst(1, 0),
                Op::Or | Op::Xor => return konst(1, 1),
                Op::Eq => return konst(1, 0),
                _ => {}
            }
        }
    }
    // Both zero extended from the same width.
    if a.op == Op::ZExt && b.op == Op::ZExt && a.kid(0).w == b.kid(0).w {
        match op {
            Op::Eq | Op::Ult | Op::Ule => return bin(op, a.kid(0), b.kid(0)),
            Op::And | Op::Or | Op::Xor => return zext(bin(op, a.kid(0), b.kid(0)), w),
            Op::Slt => return bin(Op::Ult, a.kid(0), b.kid(0)),
            Op::Sle => return bin(Op::Ule, a.kid(0), b.kid(0)),
            _ => {}
        }
    }
    // Or of disjoint concat pieces (shl | zext).
    if op == Op::Or || op == Op::Add {
        for (x, y) in [(a, b), (b, a)] {
            // x = zext(concat(h, 0_k)), y = zext(l) with l.w <= k
            let x = if x.op == Op::ZExt { x.kid(0) } else { x };
            if x.op == Op::Concat && x.kid(1).is_const() && x.kid(1).c == 0 && y.op == Op::ZExt {
                let k = x.kid(1).w;
                let l = y.kid(0);
                if l.w <= k {
                    return zext(concat(x.kid(0), zext(l, k as u32)), w);
                }
            }
        }
    }
    // Distribute over small constant-leaved trees.
    if a.op == Op::Ite && a.leafy > 0 && b.is_const() {
        return map_leaves(a, &|l| bin(op, l, b));
    }
    if b.op == Op::Ite && b.leafy > 0 && a.is_const() {
        return map_leaves(b, &|l| bin(op, a, l));
    }
    intern(op, rw as u16, 0, 0, &[a, b])
}

pub fn ite(c: N, a: N, b: N) -> N {
    debug_assert_eq!(c.w, 1);
    debug_assert_eq!(a.w, b.w);
    if c.is_const() {
        return if c.c == 1 { a } else { b };
    }
    if std::ptr::eq(a, b) {
        return a;
    }
    if let Some(x) = is_not1(c) {
        return ite(x, b, a);
    }
    if a.w == 1 {
        match (a.is_const(), b.is_const()) {
            (true, true) => return if a.c == 1 { c } else { not1(c) },
            (true, false) => return if a.c == 1 { bin(Op::Or, c, b) } else { bin(Op::And, not1(c), b) },
            (false, true) => return if b.c == 1 { bin(Op::Or, not1(c), a) } else { bin(Op::And, c, a) },
            _ => {}
        }
    }
    if a.op == Op::Ite && std::ptr::eq(a.kid(0), c) {
        return ite(c, a.kid(1), b);
    }
    if b.op == Op::Ite && std::ptr::eq(b.kid(0), c) {
        return ite(c, a, b.kid(2));
    }
    // zext/const merging keeps narrow values narrow.
    if a.op == Op::ZExt && b.op == Op::ZExt && a.kid(0).w == b.kid(0).w {
        return zext(ite(c, a.kid(0), b.kid(0)), a.w as u32);
    }
    intern(Op::Ite, a.w, 0, 0, &[c, a, b])
}

pub fn zext(a: N, w: u32) -> N {
    let aw = a.w as u32;
    if aw == w {
        return a;
    }
    debug_assert!(aw < w);
    if a.is_const() {
        return konst(w, a.c);
    }
    if a.op == Op::ZExt {
        return zext(a.kid(0), w);
    }
    if a.op == Op::Ite && a.leafy > 0 {
        return map_leaves(a, &|l| zext(l, w));
    }
    intern(Op::ZExt, w as u16, 0, 0, &[a])
}
pub fn sext(a: N, w: u32) -> N {
    let aw = a.w as u32;
    if aw == w {
        return a;
    }
    if a.is_const() {
        return konst(w, sext128(a.c, aw) as u128);
    }
    if a.op == Op::ZExt {
        return zext(a.kid(0), w);
    }
    if a.op == Op::Ite && a.leafy > 0 {
        return map_leaves(a, &|l| sext(l, w));
    }
    intern(Op::SExt, w as u16, 0, 0, &[a])
}
/// Width 0 is allowed in neither operand nor result; callers check.
pub fn concat(h: N, l: N) -> N {
    if h.is_const() && l.is_const() && h.w + l.w <= 128 {
        return konst((h.w + l.w) as u32, (h.c << l.w) | l.c);
    }
    if h.is_const() && h.c == 0 {
        return zext(l, (h.w + l.w) as u32);
    }
    // adjacent extracts of the same value
    if h.op == Op::Extract && l.op == Op::Extract && std::ptr::eq(h.kid(0), l.kid(0)) && h.lo == l.lo + l.w {
        return extract(l.kid(0), l.lo as u32, (h.w + l.w) as u32);
    }
    // adjacent extracts with a tail already concatenated
    if l.op == Op::Concat {
        let lh = l.kid(0);
        if h.op == Op::Extract && lh.op == Op::Extract && std::ptr::eq(h.kid(0), lh.kid(0)) && h.lo == lh.lo + lh.w {
            return concat(extract(lh.kid(0), lh.lo as u32, (h.w + lh.w) as u32), l.kid(1));
        }
    }
    if h.op == Op::ZExt {
        let x = h.kid(0);
        return zext(concat(x, l), (h.w + l.w) as u32);
    }
    intern(Op::Concat, h.w + l.w, 0, 0, &[h, l])
}
pub fn extract(a: N, lo: u32, w: u32) -> N {
    let aw = a.w as u32;
    debug_assert!(lo + w <= aw && w > 0);
    if lo == 0 && w == aw {
        return a;
    }
    match a.op {
        Op::Const => return konst(w, a.c >> lo),
        Op::Extract => return extract(a.kid(0), lo + a.lo as u32, w),
        Op::ZExt => {
            let x = a.kid(0);
            let xw = x.w as u32;
            if lo >= xw {
                return konst(w, 0);
            }
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, xw - lo), w);
        }
        Op::SExt => {
            let x = a.kid(0);
            let xw = x.w as u32;
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            if lo == 0 {
                return sext(x, w);
            }
        }
        Op::Concat => {
            let (h, l) = (a.kid(0), a.kid(1));
            let lw = l.w as u32;
            if lo >= lw {
                return extract(h, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(l, lo, w);
            }
            return concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo));
        }
        Op::And | Op::Or | Op::Xor if a.kid(1).is_const() => {
            return bin(a.op, extract(a.kid(0), lo, w), extract(a.kid(1), lo, w));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(a.op, extract(a.kid(0), 0, w), extract(a.kid(1), 0, w));
        }
        Op::Ite => {
            if a.leafy > 0 {
                return map_leaves(a, &|l| extract(l, lo, w));
            }
            let (x, y) = (extract(a.kid(1), lo, w), extract(a.kid(2), lo, w));
            if x.op != Op::Extract || y.op != Op::Extract {
                return ite(a.kid(0), x, y);
            }
        }
        _ => {}
    }
    intern(Op::Extract, w as u16, lo as u16, 0, &[a])
}

/// Evaluate under an assignment (indexed by variable).
pub fn eval(n: N, model: &[u128], memo: &mut FxMap<u32, u128>) -> u128 {
    match n.op {
        Op::Const => return n.c,
        Op::Var => return model.get(n.c as usize).copied().unwrap_or(0) & mask(n.w as u32),
        _ => {}
    }
    if let Some(v) = memo.get(&n.id) {
        return *v;
    }
    let w = n.w as u32;
    let r = match n.op {
        Op::Ite => {
            if eval(n.kid(0), model, memo) == 1 {
                eval(n.kid(1), model, memo)
            } else {
                eval(n.kid(2), model, memo)
            }
        }
        Op::ZExt => eval(n.kid(0), model, memo),
        Op::SExt => sext128(eval(n.kid(0), model, memo), n.kid(0).w as u32) as u128,
        Op::Extract => eval(n.kid(0), model, memo) >> n.lo,
        Op::Concat => (eval(n.kid(0), model, memo) << n.kid(1).w) | eval(n.kid(1), model, memo),
        op => {
            let a = eval(n.kid(0), model, memo);
            let b = eval(n.kid(1), model, memo);
            fold2(op, n.kid(0).w as u32, a, b)
        }
    } & mask(w);
    memo.insert(n.id, r);
    r
}

pub fn to_node(v: Val, w: u32) -> N {
    match v {
        Val::I(x) => konst(w, x as u128),
        Val::S(n) => {
            debug_assert_eq!(n.w as u32, w);
            n
        }
    }
}
/// Normalise: constants of at most 64 bits become concrete.
#[inline]
pub fn to_val(n: N) -> Val {
    if n.is_const() && n.w <= 64 {
        Val::I(n.c as u64)
    } else {
        Val::S(n)
    }
}
