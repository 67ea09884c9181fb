//! Parser for rustc's textual LLVM IR and lowering to a flat register code.
use crate::expr::*;
use std::collections::HashMap;
use std::sync::OnceLock;

pub const HI: u32 = 0x8000_0000;
/// First object id used for functions; function i has address (FN_BASE + i) << 32.
pub const FN_BASE: u64 = 0x4000_0000;
/// First object id of the dynamic objects.
pub const HEAP_BASE: u64 = 0x0010_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

impl Ty {
    pub fn scalar_w(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("not scalar: {self:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (w.div_ceil(8) as u64).next_power_of_two().min(16),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.size_raw().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Void | Ty::Meta => 1,
        }
    }
    fn size_raw(&self) -> u64 {
        match self {
            Ty::Int(w) => w.div_ceil(8) as u64,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (*n as u64 * t.scalar_w() as u64).div_ceil(8),
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Struct(ts, p) => {
                let mut o = 0u64;
                for t in ts {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.alloc_size();
                }
                o.next_multiple_of(self.align())
            }
            Ty::Void | Ty::Meta => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        self.size_raw().next_multiple_of(self.align())
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, p) => {
                let mut o = 0u64;
                for (j, t) in ts.iter().enumerate() {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    if i == j {
                        return o;
                    }
                    o += t.alloc_size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.alloc_size() * i as u64,
            Ty::Vec(_, t) => (t.scalar_w() as u64 / 8) * i as u64,
            _ => panic!("field of scalar"),
        }
    }
    pub fn sub(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("element of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!(),
        }
    }
    /// Flattened scalar slots: (byte offset, width).
    pub fn slots(&self) -> Vec<(u64, u32)> {
        let mut v = Vec::new();
        self.slots_into(0, &mut v);
        v
    }
    fn slots_into(&self, off: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Struct(ts, _) => {
                for (i, t) in ts.iter().enumerate() {
                    t.slots_into(off + self.field_off(i), out);
                }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.slots_into(off + i * t.alloc_size(), out);
                }
            }
            Ty::Vec(n, t) => {
                let w = t.scalar_w();
                for i in 0..*n {
                    out.push((off + (i as u64 * w as u64) / 8, w));
                }
            }
            t => out.push((off, t.scalar_w())),
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Struct(ts, _) => ts.iter().map(|t| t.nslots()).sum(),
            Ty::Arr(n, t) => *n as usize * t.nslots(),
            Ty::Vec(n, _) => *n as usize,
            _ => 1,
        }
    }
}

pub type R = u32;
pub type O = u32;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Nop,
    Assume,
    Trap,
    Memcpy,
    Memmove,
    Memset,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    Umin,
    Umax,
    Smin,
    Smax,
    Ucmp,
    Scmp,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Abs,
    Fshl,
    Fshr,
    IsConstant,
    Ident,
    Fabs,
    F1(u8),
    Zero,
}

#[derive(Clone, Copy, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: u32,
    pub nmoves: u32,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u8, d: R, a: O, b: O },
    Icmp { p: Pred, w: u8, d: R, a: O, b: O },
    Select { w: u16, d: R, c: O, a: O, b: O },
    Zext { d: R, a: O, from: u16, to: u16 },
    Sext { d: R, a: O, from: u16, to: u16 },
    Trunc { d: R, a: O, from: u16, to: u16 },
    Mov { d: R, a: O },
    Load { d: R, p: O, off: u32, w: u16 },
    Store { v: O, p: O, off: u32, w: u16 },
    GepC { d: R, a: O, off: i64 },
    Gep1 { d: R, a: O, off: i64, i: O, iw: u8, scale: i64 },
    GepN { d: R, a: O, off: i64, idx: Box<[(O, u8, i64)]> },
    Alloca { d: R, off: u32 },
    Br(Edge),
    CondBr { c: O, t: Edge, f: Edge },
    Switch { v: O, w: u16, def: Edge, cases: Box<[(u128, Edge)]> },
    Ret(Box<[O]>),
    Unreachable,
    Call { f: u32, args: Box<[O]>, d: R, n: u16, normal: Option<Edge> },
    CallInd { f: O, args: Box<[O]>, d: R, n: u16, normal: Option<Edge> },
    Intrinsic { k: Intr, w: u16, d: R, args: Box<[O]> },
    Bitcast { src: Box<[O]>, sw: u16, d: R, dn: u16, dw: u16 },
    ExtractElt { d: R, src: Box<[O]>, i: O },
    InsertElt { d: R, src: Box<[O]>, v: O, i: O },
    Rmw { d: R, p: O, v: O, w: u16, op: u8 },
    CmpXchg { d: R, p: O, cmp: O, new: O, w: u16 },
    FBin { op: FOp, dbl: bool, d: R, a: O, b: O },
    FNeg { dbl: bool, d: R, a: O },
    Fcmp { p: u8, dbl: bool, d: R, a: O, b: O },
    IToF { signed: bool, from: u16, dbl: bool, d: R, a: O },
    FToI { signed: bool, to: u16, dbl: bool, d: R, a: O },
    FCast { to_dbl: bool, d: R, a: O },
    Bad(Box<str>),
}

pub struct Func {
    pub idx: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub consts: Vec<Val>,
    pub code: Vec<Inst>,
    pub moves: Vec<(R, O)>,
    pub frame_size: u32,
}

pub struct FuncDef {
    pub name: &'static str,
    pub head: &'static str,
    pub body: &'static [&'static str],
    pub defined: bool,
    pub code: OnceLock<Func>,
}

pub struct GlobalDef {
    pub name: &'static str,
    pub line: &'static str,
    pub constant: bool,
    pub external: bool,
    pub ty: Ty,
    pub init_at: usize,
    pub size: u64,
    pub data: OnceLock<Vec<u8>>,
}

pub struct Module {
    pub globals: Vec<GlobalDef>,
    pub funcs: Vec<FuncDef>,
    pub names: HashMap<&'static str, u64>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c as char, self.rest());
        }
    }
    fn rest(&self) -> &'a str {
        std::str::from_utf8(&self.s[self.i.min(self.s.len())..]).unwrap_or("?")
    }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'+')) {
            j += 1;
        }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.word_at();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word_at() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// Name after % or @ (possibly quoted).
    fn name(&mut self) -> &'a str {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            std::str::from_utf8(&self.s[st..j]).unwrap()
        } else {
            let st = self.i;
            let mut j = st;
            while j < self.s.len()
                && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'$'))
            {
                j += 1;
            }
            self.i = j;
            std::str::from_utf8(&self.s[st..j]).unwrap()
        }
    }
    fn int(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().or_else(|_| w.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| panic!("int {w:?} before {:?}", self.rest()))
    }
    fn skip_balanced(&mut self, open: u8, close: u8) {
        self.expect(open);
        let mut d = 1;
        while d > 0 {
            let c = self.s[self.i];
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
            }
            if c == open {
                d += 1;
            } else if c == close {
                d -= 1;
            }
            self.i += 1;
        }
    }
    fn fast_math(&mut self) {
        while matches!(self.word_at(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
            self.word();
        }
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                while !self.eat(b'}') {
                    v.push(self.ty());
                    self.eat(b',');
                }
                Ty::Struct(v, false)
            }
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    match t {
                        Ty::Struct(v, _) => Ty::Struct(v, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.int() as u32;
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "double" => Ty::Double,
                    "float" => Ty::Float,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Void,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                    _ => panic!("type {w:?} then {:?}", self.rest()),
                }
            }
        }
    }
    /// Skip parameter attributes in front of a value or name.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.word_at();
            if is_value_word(w) {
                return;
            }
            self.i += w.len();
            if w == "align" && self.peek().is_ascii_digit() {
                self.word();
                continue;
            }
            if self.s.get(self.i) == Some(&b'(') {
                self.skip_balanced(b'(', b')');
            }
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint"
            | "trunc" | "bitcast" | "none" | "splat" | "blockaddress" | "dso_local_equivalent" | "sub" | "add" | "asm"
            | "addrspacecast" | "ptrtoaddr"
    ) || w.starts_with("0x")
}

impl Module {
    pub fn parse(src: &'static str) -> Module {
        let mut m = Module { globals: Vec::new(), funcs: Vec::new(), names: HashMap::new() };
        let lines: Vec<&'static str> = src.lines().collect();
        let lines: &'static [&'static str] = Box::leak(lines.into_boxed_slice());
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                m.global(l);
            } else if l.starts_with("define ") {
                let st = i + 1;
                while lines[i] != "}" {
                    i += 1;
                }
                m.func(l, &lines[st..i], true);
            } else if l.starts_with("declare ") {
                m.func(l, &[], false);
            }
            i += 1;
        }
        m
    }
    fn func(&mut self, head: &'static str, body: &'static [&'static str], defined: bool) {
        let at = head.find(" @").unwrap() + 2;
        let mut p = P::new(head);
        p.i = at;
        let name = p.name();
        let name: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(name) };
        self.names.insert(name, (FN_BASE + self.funcs.len() as u64) << 32);
        self.funcs.push(FuncDef { name, head, body, defined, code: OnceLock::new() });
    }
    fn global(&mut self, line: &'static str) {
        let mut p = P::new(line);
        p.i = 1;
        let name: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(p.name()) };
        p.ws();
        p.expect(b'=');
        let mut constant = false;
        let mut external = false;
        loop {
            let w = p.word();
            match w {
                "global" => break,
                "constant" => {
                    constant = true;
                    break;
                }
                "external" | "extern_weak" => external = true,
                "" => panic!("global line {line}"),
                _ => {
                    if p.s.get(p.i) == Some(&b'(') {
                        p.skip_balanced(b'(', b')');
                    }
                }
            }
        }
        let ty = p.ty();
        let size = ty.alloc_size();
        // Ids of globals start at 1.
        self.names.insert(name, (self.globals.len() as u64 + 1) << 32);
        self.globals.push(GlobalDef { name, line, constant, external, ty, init_at: p.i, size, data: OnceLock::new() });
        assert!(self.globals.len() < HEAP_BASE as usize);
    }

    pub fn global_data(&self, i: usize) -> &[u8] {
        let g = &self.globals[i];
        g.data.get_or_init(|| {
            let mut out = vec![0u8; g.size as usize];
            if !g.external {
                let mut p = P::new(g.line);
                p.i = g.init_at;
                self.init(&mut p, &g.ty, &mut out, 0);
            }
            out
        })
    }

    fn init(&self, p: &mut P, ty: &Ty, out: &mut [u8], off: usize) {
        match p.peek() {
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut o = off;
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' {
                        out[o] = b'\\';
                        p.i += 2;
                    } else if p.s[p.i] == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        out[o] = u8::from_str_radix(h, 16).unwrap();
                        p.i += 3;
                    } else {
                        out[o] = p.s[p.i];
                        p.i += 1;
                    }
                    o += 1;
                }
                p.i += 1;
                return;
            }
            _ => {}
        }
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let w = p.word_at();
                if w == "zeroinitializer" || w == "undef" || w == "poison" {
                    p.word();
                    return;
                }
                let packed = p.peek() == b'<' && matches!(ty, Ty::Struct(..));
                p.i += 1;
                if packed {
                    p.expect(b'{');
                }
                for i in 0..ty.count() {
                    let t = p.ty();
                    self.init(p, &t, out, off + ty.field_off(i) as usize);
                    p.eat(b',');
                }
                p.ws();
                p.i += 1;
                if packed {
                    p.expect(b'>');
                }
            }
            _ => {
                let v = self.const_val(p, ty);
                let bytes = ty.alloc_size() as usize;
                out[off..off + bytes].copy_from_slice(&v.to_le_bytes()[..bytes]);
            }
        }
    }

    /// A scalar constant after its type.
    fn const_val(&self, p: &mut P, ty: &Ty) -> u128 {
        let c = p.peek();
        if c == b'@' {
            p.i += 1;
            let n = p.name();
            return *self.names.get(n).unwrap_or_else(|| panic!("unknown symbol {n}")) as u128;
        }
        let m = mask(ty.scalar_w());
        let w = p.word();
        match w {
            "true" => 1,
            "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
            "getelementptr" => {
                while p.peek() != b'(' {
                    let w = p.word();
                    if w == "inrange" {
                        p.skip_balanced(b'(', b')');
                    }
                }
                p.expect(b'(');
                let mut t = p.ty();
                p.expect(b',');
                let pt = p.ty();
                let mut a = self.const_val(p, &pt);
                let mut first = true;
                while p.eat(b',') {
                    let it = p.ty();
                    let iv = self.const_val(p, &it);
                    let iv = sext128(iv, it.scalar_w());
                    if first {
                        a = a.wrapping_add((iv * t.alloc_size() as i128) as u128);
                        first = false;
                    } else {
                        a = a.wrapping_add(match &t {
                            Ty::Arr(_, e) => (iv * e.alloc_size() as i128) as u128,
                            _ => t.field_off(iv as usize) as u128,
                        });
                        t = t.sub(if matches!(t, Ty::Struct(..)) { iv as usize } else { 0 }).clone();
                    }
                }
                p.expect(b')');
                a & mask(64)
            }
            "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "ptrtoaddr" => {
                p.expect(b'(');
                let t = p.ty();
                let v = self.const_val(p, &t);
                assert!(p.eat_word("to"));
                p.ty();
                p.expect(b')');
                v & m
            }
            "sub" | "add" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect(b'(');
                let t = p.ty();
                let a = self.const_val(p, &t);
                p.expect(b',');
                let t = p.ty();
                let b = self.const_val(p, &t);
                p.expect(b')');
                (if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) }) & m
            }
            _ => {
                if matches!(ty, Ty::Double | Ty::Float) {
                    let d = if let Some(h) = w.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        w.parse::<f64>().unwrap()
                    };
                    return if matches!(ty, Ty::Double) { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 };
                }
                let v = w
                    .parse::<i128>()
                    .or_else(|_| w.parse::<u128>().map(|x| x as i128))
                    .unwrap_or_else(|_| panic!("constant {w:?} then {:?}", p.rest()));
                v as u128 & m
            }
        }
    }

    pub fn func_code(&self, i: usize) -> &Func {
        self.funcs[i].code.get_or_init(|| Lower::run(self, i as u32))
    }
}

struct Lower<'m> {
    m: &'m Module,
    consts: Vec<Val>,
    cmap: HashMap<(u32, u128), u32>,
    regs: HashMap<&'static str, u32>,
    nregs: u32,
    code: Vec<Inst>,
    moves: Vec<(R, O)>,
    frame: u32,
    /// block -> phis: (reg base, nslots, map pred -> ops)
    phis: HashMap<&'static str, Vec<(u32, Vec<(&'static str, Vec<O>)>)>>,
    block_pc: HashMap<&'static str, u32>,
    /// pending edges: (index in `edges`)
    edges: Vec<(&'static str, &'static str)>,
    cur: &'static str,
}

fn st(s: &str) -> &'static str {
    // All text comes from the leaked module source.
    unsafe { std::mem::transmute(s) }
}

impl<'m> Lower<'m> {
    fn run(m: &'m Module, idx: u32) -> Func {
        let fd = &m.funcs[idx as usize];
        let mut l = Lower {
            m,
            consts: vec![],
            cmap: HashMap::new(),
            regs: HashMap::new(),
            nregs: 0,
            code: vec![],
            moves: vec![],
            frame: 0,
            phis: HashMap::new(),
            block_pc: HashMap::new(),
            edges: vec![],
            cur: "",
        };
        // Parameters.
        let mut p = P::new(fd.head);
        p.i = fd.head.find(" @").unwrap() + 2;
        p.name();
        p.expect(b'(');
        let mut unnamed = 0u32;
        let mut nparams = 0;
        while !p.eat(b')') {
            if p.rest().starts_with("...") {
                p.i += 3;
                continue;
            }
            let t = p.ty();
            p.attrs();
            let name = if p.peek() == b'%' {
                p.i += 1;
                st(p.name())
            } else {
                let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                n
            };
            if name.bytes().all(|b| b.is_ascii_digit()) {
                unnamed += 1;
            }
            let n = t.nslots() as u32;
            l.regs.insert(name, l.nregs);
            l.nregs += n;
            nparams += n;
            p.eat(b',');
        }
        // Blocks. The entry block may be unlabelled; its implicit label is the next number.
        let entry: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
        l.cur = entry;
        // First pass: phis (they may forward reference registers of any block).
        let mut joined: Vec<String> = Vec::new();
        let _ = &mut joined;
        let body = fd.body;
        let mut cur = entry;
        let mut k = 0;
        while k < body.len() {
            let line = body[k];
            if let Some(lab) = label_of(line) {
                cur = lab;
            } else if let Some(eq) = line.find(" = phi ") {
                let mut p = P::new(line);
                p.expect(b'%');
                let name = st(p.name());
                p.i = eq + 7;
                p.fast_math();
                let t = p.ty();
                let base = l.reg(name, &t);
                let mut inc = Vec::new();
                loop {
                    p.expect(b'[');
                    let v = l.value(&mut p, &t);
                    p.expect(b',');
                    p.expect(b'%');
                    let b = st(p.name());
                    p.expect(b']');
                    inc.push((b, v));
                    if p.peek() != b',' {
                        break;
                    }
                    p.i += 1;
                    if p.peek() != b'[' {
                        break;
                    }
                }
                l.phis.entry(cur).or_default().push((base, inc));
            }
            k += 1;
        }
        l.block_pc.insert(entry, 0);
        let mut k = 0;
        while k < body.len() {
            let line = body[k];
            k += 1;
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            if let Some(lab) = label_of(line) {
                l.cur = lab;
                l.block_pc.insert(lab, l.code.len() as u32);
                continue;
            }
            // Multi-line instructions: switch and invoke, landingpad clauses.
            let t = line.trim_start();
            if t.starts_with("#dbg") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                continue;
            }
            let mut full: &'static str = line;
            if t.starts_with("switch ") {
                let mut s = String::from(line);
                while !s.trim_end().contains(']') {
                    s.push(' ');
                    s.push_str(body[k]);
                    k += 1;
                }
                full = Box::leak(s.into_boxed_str());
            } else if t.contains("invoke ") && k < body.len() && body[k].trim_start().starts_with("to label") {
                let mut s = String::from(line);
                s.push(' ');
                s.push_str(body[k]);
                k += 1;
                full = Box::leak(s.into_boxed_str());
            }
            l.inst(full);
        }
        l.finish(idx, nparams)
    }

    fn finish(mut self, idx: u32, nparams: u32) -> Func {
        // Resolve the edges.
        let mut res = Vec::new();
        for (from, to) in std::mem::take(&mut self.edges) {
            let target = *self.block_pc.get(to).unwrap_or_else(|| panic!("no block {to}"));
            let start = self.moves.len() as u32;
            if let Some(ph) = self.phis.get(to) {
                for (base, inc) in ph {
                    let (_, ops) = inc.iter().find(|(b, _)| *b == from).unwrap_or_else(|| panic!("phi without pred {from}"));
                    for (i, o) in ops.iter().enumerate() {
                        if *o != base + i as u32 {
                            self.moves.push((base + i as u32, *o));
                        }
                    }
                }
            }
            let n = self.moves.len() as u32 - start;
            res.push(Edge { target, moves: start, nmoves: n });
        }
        let fix = |e: &mut Edge| *e = res[e.target as usize];
        for i in &mut self.code {
            match i {
                Inst::Br(e) => fix(e),
                Inst::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f);
                }
                Inst::Switch { def, cases, .. } => {
                    fix(def);
                    for (_, e) in cases.iter_mut() {
                        fix(e);
                    }
                }
                Inst::Call { normal: Some(e), .. } | Inst::CallInd { normal: Some(e), .. } => fix(e),
                _ => {}
            }
        }
        Func {
            idx,
            nregs: self.nregs,
            nparams,
            consts: self.consts,
            code: self.code,
            moves: self.moves,
            frame_size: self.frame,
        }
    }

    fn edge(&mut self, to: &'static str) -> Edge {
        self.edges.push((self.cur, to));
        Edge { target: self.edges.len() as u32 - 1, moves: 0, nmoves: 0 }
    }

    fn reg(&mut self, name: &'static str, t: &Ty) -> u32 {
        if let Some(r) = self.regs.get(name) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += t.nslots() as u32;
        self.regs.insert(name, r);
        r
    }
    fn konst(&mut self, w: u32, v: u128) -> O {
        if let Some(i) = self.cmap.get(&(w, v)) {
            return HI | i;
        }
        let i = self.consts.len() as u32;
        self.consts.push(if w <= 64 { Val::I(v as u64) } else { Val::S(konst(w, v)) });
        self.cmap.insert((w, v), i);
        HI | i
    }

    fn value(&mut self, p: &mut P, t: &Ty) -> Vec<O> {
        let c = p.peek();
        if c == b'%' {
            p.i += 1;
            let n = st(p.name());
            let b = self.reg(n, t);
            return (0..t.nslots() as u32).map(|i| b + i).collect();
        }
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let w = p.word_at();
                if w == "zeroinitializer" || w == "undef" || w == "poison" || w == "none" {
                    p.word();
                    return t.slots().iter().map(|(_, w)| self.konst(*w, 0)).collect();
                }
                if w == "splat" {
                    p.word();
                    p.expect(b'(');
                    let et = p.ty();
                    let v = self.m.const_val(p, &et);
                    p.expect(b')');
                    return t.slots().iter().map(|(_, w)| self.konst(*w, v)).collect();
                }
                if c == b'c' && p.s[p.i + 1] == b'"' {
                    let mut buf = vec![0u8; t.alloc_size() as usize];
                    self.m.init(p, t, &mut buf, 0);
                    return buf.iter().map(|b| self.konst(8, *b as u128)).collect();
                }
                p.i += 1;
                let packed = c == b'<' && matches!(t, Ty::Struct(..));
                if packed {
                    p.expect(b'{');
                }
                let mut out = Vec::new();
                for i in 0..t.count() {
                    let et = p.ty();
                    debug_assert_eq!(&et, t.sub(i));
                    out.extend(self.value(p, &et));
                    p.eat(b',');
                }
                p.ws();
                p.i += 1;
                if packed {
                    p.expect(b'>');
                }
                out
            }
            Ty::Meta => {
                // Not expected; skip.
                vec![]
            }
            _ => {
                let v = self.m.const_val(p, t);
                vec![self.konst(t.scalar_w(), v)]
            }
        }
    }
    fn tyval(&mut self, p: &mut P) -> (Ty, Vec<O>) {
        let t = p.ty();
        p.attrs();
        let v = self.value(p, &t);
        (t, v)
    }
    fn lane_ty(t: &Ty) -> Ty {
        match t {
            Ty::Vec(_, e) => (**e).clone(),
            t => t.clone(),
        }
    }

    fn inst(&mut self, line: &'static str) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {}));
        let _ = r;
        self.inst_(line)
    }

    fn inst_(&mut self, line: &'static str) {
        let mut p = P::new(line);
        let mut dst: Option<&'static str> = None;
        if p.peek() == b'%' {
            p.i += 1;
            dst = Some(st(p.name()));
            p.expect(b'=');
        }
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let binop = match op {
            "add" => Some(Op::Add),
            "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "sdiv" => Some(Op::SDiv),
            "urem" => Some(Op::URem),
            "srem" => Some(Op::SRem),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            _ => None,
        };
        if let Some(bop) = binop {
            while matches!(p.word_at(), "nuw" | "nsw" | "exact" | "disjoint") {
                p.word();
            }
            let t = p.ty();
            let a = self.value(&mut p, &t);
            p.expect(b',');
            let b = self.value(&mut p, &t);
            let w = Self::lane_ty(&t).scalar_w();
            let d = self.reg(dst.unwrap(), &t);
            for i in 0..a.len() {
                self.code.push(Inst::Bin { op: bop, w: w as u8, d: d + i as u32, a: a[i], b: b[i] });
            }
            return;
        }
        match op {
            "icmp" => {
                p.eat_word("samesign");
                let pred = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {x}"),
                };
                let t = p.ty();
                let a = self.value(&mut p, &t);
                p.expect(b',');
                let b = self.value(&mut p, &t);
                let w = Self::lane_ty(&t).scalar_w();
                let rt = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let d = self.reg(dst.unwrap(), &rt);
                for i in 0..a.len() {
                    self.code.push(Inst::Icmp { p: pred, w: w as u8, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "phi" => {}
            "select" => {
                p.fast_math();
                let (ct, c) = self.tyval(&mut p);
                p.expect(b',');
                let (t, a) = self.tyval(&mut p);
                p.expect(b',');
                let (_, b) = self.tyval(&mut p);
                let d = self.reg(dst.unwrap(), &t);
                let slots = t.slots();
                for i in 0..a.len() {
                    let cc = if matches!(ct, Ty::Vec(..)) { c[i] } else { c[0] };
                    self.code.push(Inst::Select { w: slots[i].1 as u16, d: d + i as u32, c: cc, a: a[i], b: b[i] });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while matches!(p.word_at(), "nneg" | "nuw" | "nsw") {
                    p.word();
                }
                let t = p.ty();
                let a = self.value(&mut p, &t);
                assert!(p.eat_word("to"));
                let tt = p.ty();
                let from = Self::lane_ty(&t).scalar_w() as u16;
                let to = Self::lane_ty(&tt).scalar_w() as u16;
                let d = self.reg(dst.unwrap(), &tt);
                for i in 0..a.len() {
                    let (d, a) = (d + i as u32, a[i]);
                    self.code.push(if from == to {
                        Inst::Mov { d, a }
                    } else if to < from {
                        Inst::Trunc { d, a, from, to }
                    } else if op == "sext" {
                        Inst::Sext { d, a, from, to }
                    } else {
                        Inst::Zext { d, a, from, to }
                    });
                }
            }
            "freeze" => {
                let (t, a) = self.tyval(&mut p);
                let d = self.reg(dst.unwrap(), &t);
                for (i, a) in a.iter().enumerate() {
                    self.code.push(Inst::Mov { d: d + i as u32, a: *a });
                }
            }
            "bitcast" => {
                let (t, a) = self.tyval(&mut p);
                assert!(p.eat_word("to"));
                let tt = p.ty();
                let d = self.reg(dst.unwrap(), &tt);
                let sw = Self::lane_ty(&t).scalar_w() as u16;
                let dw = Self::lane_ty(&tt).scalar_w() as u16;
                self.code.push(Inst::Bitcast { src: a.into(), sw, d, dn: tt.nslots() as u16, dw });
            }
            "load" => {
                while matches!(p.word_at(), "atomic" | "volatile") {
                    p.word();
                }
                let t = p.ty();
                p.expect(b',');
                let (_, a) = self.tyval(&mut p);
                let d = self.reg(dst.unwrap(), &t);
                if let Ty::Vec(n, l) = &t {
                    let w = l.scalar_w();
                    if w % 8 != 0 {
                        // sub-byte lanes are packed: load them as one integer
                        let bits = *n as u32 * w;
                        let full = bits.next_multiple_of(8);
                        let mut r = self.nregs;
                        self.nregs += 2;
                        self.code.push(Inst::Load { d: r, p: a[0], off: 0, w: full as u16 });
                        if full != bits {
                            self.code.push(Inst::Trunc { d: r + 1, a: r, from: full as u16, to: bits as u16 });
                            r += 1;
                        }
                        self.code.push(Inst::Bitcast { src: vec![r].into(), sw: bits as u16, d, dn: *n as u16, dw: w as u16 });
                        return;
                    }
                }
                for (i, (off, w)) in t.slots().iter().enumerate() {
                    self.code.push(Inst::Load { d: d + i as u32, p: a[0], off: *off as u32, w: *w as u16 });
                }
            }
            "store" => {
                while matches!(p.word_at(), "atomic" | "volatile") {
                    p.word();
                }
                let (t, v) = self.tyval(&mut p);
                p.expect(b',');
                let (_, a) = self.tyval(&mut p);
                if let Ty::Vec(n, l) = &t {
                    let w = l.scalar_w();
                    if w % 8 != 0 {
                        let bits = *n as u32 * w;
                        let full = bits.next_multiple_of(8);
                        let mut r = self.nregs;
                        self.nregs += 2;
                        self.code.push(Inst::Bitcast { src: v.into(), sw: w as u16, d: r, dn: 1, dw: bits as u16 });
                        if full != bits {
                            self.code.push(Inst::Zext { d: r + 1, a: r, from: bits as u16, to: full as u16 });
                            r += 1;
                        }
                        self.code.push(Inst::Store { v: r, p: a[0], off: 0, w: full as u16 });
                        return;
                    }
                }
                for (i, (off, w)) in t.slots().iter().enumerate() {
                    self.code.push(Inst::Store { v: v[i], p: a[0], off: *off as u32, w: *w as u16 });
                }
            }
            "getelementptr" => {
                loop {
                    let w = p.word_at();
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        p.word();
                    } else if w == "inrange" {
                        p.word();
                        p.skip_balanced(b'(', b')');
                    } else {
                        break;
                    }
                }
                let mut t = p.ty();
                p.expect(b',');
                let (_, base) = self.tyval(&mut p);
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut first = true;
                while p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    let it = p.ty();
                    let is_c = p.peek() != b'%';
                    let iw = it.scalar_w();
                    if is_c {
                        let v = sext128(self.m.const_val(&mut p, &it), iw) as i64;
                        if first {
                            off = off.wrapping_add(v.wrapping_mul(t.alloc_size() as i64));
                        } else {
                            let o = match &t {
                                Ty::Arr(_, e) => v.wrapping_mul(e.alloc_size() as i64),
                                _ => t.field_off(v as usize) as i64,
                            };
                            off = off.wrapping_add(o);
                            t = t.sub(if matches!(t, Ty::Struct(..)) { v as usize } else { 0 }).clone();
                        }
                    } else {
                        let v = self.value(&mut p, &it);
                        if !first {
                            t = t.sub(0).clone();
                        }
                        idx.push((v[0], iw as u8, t.alloc_size() as i64));
                    }
                    first = false;
                }
                let d = self.reg(dst.unwrap(), &Ty::Ptr);
                self.code.push(match idx.len() {
                    0 => Inst::GepC { d, a: base[0], off },
                    1 => Inst::Gep1 { d, a: base[0], off, i: idx[0].0, iw: idx[0].1, scale: idx[0].2 },
                    _ => Inst::GepN { d, a: base[0], off, idx: idx.into() },
                });
            }
            "alloca" => {
                let t = p.ty();
                let mut align = t.align();
                let mut n = 1;
                while p.eat(b',') {
                    if p.eat_word("align") {
                        align = p.int() as u64;
                    } else if p.peek() == b'!' {
                        break;
                    } else {
                        let it = p.ty();
                        n = self.m.const_val(&mut p, &it) as u64;
                    }
                }
                let off = (self.frame as u64).next_multiple_of(align.max(1));
                let d = self.reg(dst.unwrap(), &Ty::Ptr);
                self.frame = (off + (t.alloc_size() * n).max(1)) as u32;
                self.code.push(Inst::Alloca { d, off: off as u32 });
            }
            "br" => {
                if p.eat_word("label") {
                    p.expect(b'%');
                    let to = st(p.name());
                    let e = self.edge(to);
                    self.code.push(Inst::Br(e));
                } else {
                    let (_, c) = self.tyval(&mut p);
                    p.expect(b',');
                    p.eat_word("label");
                    p.expect(b'%');
                    let t = st(p.name());
                    p.expect(b',');
                    p.eat_word("label");
                    p.expect(b'%');
                    let f = st(p.name());
                    let t = self.edge(t);
                    let f = self.edge(f);
                    self.code.push(Inst::CondBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tyval(&mut p);
                p.expect(b',');
                p.eat_word("label");
                p.expect(b'%');
                let def = st(p.name());
                let def = self.edge(def);
                p.expect(b'[');
                let mut cases = Vec::new();
                while !p.eat(b']') {
                    let ct = p.ty();
                    let c = self.m.const_val(&mut p, &ct);
                    p.expect(b',');
                    p.eat_word("label");
                    p.expect(b'%');
                    let to = st(p.name());
                    let e = self.edge(to);
                    cases.push((c, e));
                }
                self.code.push(Inst::Switch { v: v[0], w: t.scalar_w() as u16, def, cases: cases.into() });
            }
            "ret" => {
                let t = p.ty();
                let v = if t == Ty::Void { vec![] } else { self.value(&mut p, &t) };
                self.code.push(Inst::Ret(v.into()));
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            "call" | "invoke" => self.call(&mut p, dst, op == "invoke"),
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => {
                if let Some(d) = dst {
                    let t = Ty::Struct(vec![Ty::Ptr, Ty::Int(32)], false);
                    self.reg(d, &t);
                }
                self.code.push(Inst::Bad("unwinding".into()));
            }
            "extractvalue" => {
                let (t, v) = self.tyval(&mut p);
                let mut tt = &t;
                let mut base = 0usize;
                while p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    let i = p.int() as usize;
                    for j in 0..i {
                        base += tt.sub(j).nslots();
                    }
                    tt = tt.sub(i);
                }
                let n = tt.nslots();
                let d = self.reg(dst.unwrap(), tt);
                for i in 0..n {
                    self.code.push(Inst::Mov { d: d + i as u32, a: v[base + i] });
                }
            }
            "insertvalue" => {
                let (t, v) = self.tyval(&mut p);
                p.expect(b',');
                let (_, x) = self.tyval(&mut p);
                let mut tt = &t;
                let mut base = 0usize;
                while p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    let i = p.int() as usize;
                    for j in 0..i {
                        base += tt.sub(j).nslots();
                    }
                    tt = tt.sub(i);
                }
                let d = self.reg(dst.unwrap(), &t);
                for i in 0..v.len() {
                    let s = if i >= base && i < base + x.len() { x[i - base] } else { v[i] };
                    self.code.push(Inst::Mov { d: d + i as u32, a: s });
                }
            }
            "extractelement" => {
                let (t, v) = self.tyval(&mut p);
                p.expect(b',');
                let (_, i) = self.tyval(&mut p);
                let d = self.reg(dst.unwrap(), t.sub(0));
                self.code.push(Inst::ExtractElt { d, src: v.into(), i: i[0] });
            }
            "insertelement" => {
                let (t, v) = self.tyval(&mut p);
                p.expect(b',');
                let (_, x) = self.tyval(&mut p);
                p.expect(b',');
                let (_, i) = self.tyval(&mut p);
                let d = self.reg(dst.unwrap(), &t);
                self.code.push(Inst::InsertElt { d, src: v.into(), v: x[0], i: i[0] });
            }
            "shufflevector" => {
                let (t, a) = self.tyval(&mut p);
                p.expect(b',');
                let (_, b) = self.tyval(&mut p);
                p.expect(b',');
                let mt = p.ty();
                let n = mt.count();
                let mut idx = vec![0usize; n];
                let w = p.word_at();
                if w == "zeroinitializer" || w == "poison" || w == "undef" {
                    p.word();
                } else if w == "splat" {
                    p.word();
                    p.expect(b'(');
                    let et = p.ty();
                    let v = self.m.const_val(&mut p, &et) as usize;
                    idx = vec![v; n];
                } else {
                    p.expect(b'<');
                    for x in idx.iter_mut() {
                        let et = p.ty();
                        *x = self.m.const_val(&mut p, &et) as usize;
                        p.eat(b',');
                    }
                }
                let rt = Ty::Vec(n as u32, Box::new(t.sub(0).clone()));
                let d = self.reg(dst.unwrap(), &rt);
                for (i, x) in idx.iter().enumerate() {
                    let s = if *x < a.len() { a[*x] } else { b[(*x - a.len()).min(b.len() - 1)] };
                    self.code.push(Inst::Mov { d: d + i as u32, a: s });
                }
            }
            "fence" => {}
            "atomicrmw" => {
                p.eat_word("volatile");
                let k = match p.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    x => panic!("atomicrmw {x}"),
                };
                let (_, a) = self.tyval(&mut p);
                p.expect(b',');
                let (t, v) = self.tyval(&mut p);
                let d = self.reg(dst.unwrap(), &t);
                self.code.push(Inst::Rmw { d, p: a[0], v: v[0], w: t.scalar_w() as u16, op: k });
            }
            "cmpxchg" => {
                while matches!(p.word_at(), "weak" | "volatile") {
                    p.word();
                }
                let (_, a) = self.tyval(&mut p);
                p.expect(b',');
                let (t, c) = self.tyval(&mut p);
                p.expect(b',');
                let (_, n) = self.tyval(&mut p);
                let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
                let d = self.reg(dst.unwrap(), &rt);
                self.code.push(Inst::CmpXchg { d, p: a[0], cmp: c[0], new: n[0], w: t.scalar_w() as u16 });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                p.fast_math();
                let t = p.ty();
                let a = self.value(&mut p, &t);
                p.expect(b',');
                let b = self.value(&mut p, &t);
                let d = self.reg(dst.unwrap(), &t);
                let f = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                self.code.push(Inst::FBin { op: f, dbl: t == Ty::Double, d, a: a[0], b: b[0] });
            }
            "fneg" => {
                p.fast_math();
                let (t, a) = self.tyval(&mut p);
                let d = self.reg(dst.unwrap(), &t);
                self.code.push(Inst::FNeg { dbl: t == Ty::Double, d, a: a[0] });
            }
            "fcmp" => {
                p.fast_math();
                let k = match p.word() {
                    "oeq" => 0,
                    "ogt" => 1,
                    "oge" => 2,
                    "olt" => 3,
                    "ole" => 4,
                    "one" => 5,
                    "ord" => 6,
                    "ueq" => 8,
                    "ugt" => 9,
                    "uge" => 10,
                    "ult" => 11,
                    "ule" => 12,
                    "une" => 13,
                    "uno" => 14,
                    x => panic!("fcmp {x}"),
                };
                let t = p.ty();
                let a = self.value(&mut p, &t);
                p.expect(b',');
                let b = self.value(&mut p, &t);
                let d = self.reg(dst.unwrap(), &Ty::Int(1));
                self.code.push(Inst::Fcmp { p: k, dbl: t == Ty::Double, d, a: a[0], b: b[0] });
            }
            "uitofp" | "sitofp" => {
                p.eat_word("nneg");
                let (t, a) = self.tyval(&mut p);
                assert!(p.eat_word("to"));
                let tt = p.ty();
                let d = self.reg(dst.unwrap(), &tt);
                self.code.push(Inst::IToF { signed: op == "sitofp", from: t.scalar_w() as u16, dbl: tt == Ty::Double, d, a: a[0] });
            }
            "fptoui" | "fptosi" => {
                let (t, a) = self.tyval(&mut p);
                assert!(p.eat_word("to"));
                let tt = p.ty();
                let d = self.reg(dst.unwrap(), &tt);
                self.code.push(Inst::FToI { signed: op == "fptosi", to: tt.scalar_w() as u16, dbl: t == Ty::Double, d, a: a[0] });
            }
            "fpext" | "fptrunc" => {
                p.fast_math();
                let (_, a) = self.tyval(&mut p);
                assert!(p.eat_word("to"));
                let tt = p.ty();
                let d = self.reg(dst.unwrap(), &tt);
                self.code.push(Inst::FCast { to_dbl: tt == Ty::Double, d, a: a[0] });
            }
            x => panic!("unsupported instruction {x:?}: {line}"),
        }
    }

    fn call(&mut self, p: &mut P, dst: Option<&'static str>, invoke: bool) {
        // fast-math flags / calling convention / return attributes
        p.fast_math();
        loop {
            let w = p.word_at();
            if matches!(w, "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "noundef" | "noalias" | "nonnull" | "zeroext" | "signext" | "inreg") {
                p.word();
            } else if matches!(w, "align") {
                p.word();
                p.word();
            } else if matches!(w, "range" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "nofpclass") {
                p.word();
                p.skip_balanced(b'(', b')');
            } else {
                break;
            }
        }
        let rt = p.ty();
        if p.peek() == b'(' {
            p.skip_balanced(b'(', b')');
        }
        let d = match dst {
            Some(n) => self.reg(n, &rt),
            None => u32::MAX,
        };
        let nret = if dst.is_some() { rt.nslots() as u16 } else { 0 };
        if p.eat_word("asm") {
            // A comment: gives back its operand.
            let r = p.rest();
            let r = &r[..r.find("\"(").unwrap_or(r.len())];
            if r.contains("\"/*") && r.contains("*/\", \"=&r,0,") {
                let o = p.rest().find("\"(").unwrap();
                p.i += o + 2;
                let t = p.ty();
                p.attrs();
                let v = self.value(p, &t);
                if dst.is_some() {
                    for (i, a) in v.into_iter().enumerate() {
                        self.code.push(Inst::Mov { d: d + i as u32, a });
                    }
                }
                return;
            }
            // Inline assembly: results are zero (cpuid: no optional features); no other effect.
            for (i, (_, w)) in rt.slots().iter().enumerate() {
                if dst.is_some() {
                    let z = self.konst(*w, 0);
                    self.code.push(Inst::Mov { d: d + i as u32, a: z });
                }
            }
            return;
        }
        let callee_name: Option<&str>;
        let mut callee_op = 0;
        if p.peek() == b'@' {
            p.i += 1;
            callee_name = Some(p.name());
        } else {
            callee_name = None;
            callee_op = self.value(p, &Ty::Ptr)[0];
        }
        p.expect(b'(');
        let mut args: Vec<O> = Vec::new();
        let mut argtys = Vec::new();
        if callee_name == Some("llvm.experimental.noalias.scope.decl") {
            return;
        }
        while !p.eat(b')') {
            let t = p.ty();
            if t == Ty::Meta {
                // metadata operand: nothing we call needs it
                return;
            }
            p.attrs();
            let v = self.value(p, &t);
            args.extend(v);
            argtys.push(t);
            p.eat(b',');
        }
        let normal = if invoke {
            let at = p.rest().find("to label %").unwrap();
            p.i += at + 10;
            let to = st(p.name());
            Some(self.edge(to))
        } else {
            None
        };
        if let Some(n) = callee_name {
            if let Some(n) = n.strip_prefix("llvm.") {
                self.intrinsic(n, &rt, &argtys, args, d);
                if let Some(e) = normal {
                    self.code.push(Inst::Br(e));
                }
                return;
            }
            let a = self.m.names.get(n).unwrap_or_else(|| panic!("unknown function {n}"));
            let f = ((a >> 32) - FN_BASE) as u32;
            self.code.push(Inst::Call { f, args: args.into(), d, n: nret, normal });
        } else {
            self.code.push(Inst::CallInd { f: callee_op, args: args.into(), d, n: nret, normal });
        }
    }

    fn intrinsic(&mut self, n: &str, rt: &Ty, tys: &[Ty], args: Vec<O>, d: R) {
        let base: String = {
            // strip type suffixes
            let mut parts: Vec<&str> = n.split('.').collect();
            while parts.len() > 1 {
                let l = parts[parts.len() - 1];
                let suffix = l.len() >= 2
                    && (l.starts_with('i') || l.starts_with('p') || l.starts_with('v') || l.starts_with('f'))
                    && l[1..].bytes().all(|b| b.is_ascii_digit() || b == b'i' || b == b'f');
                if suffix {
                    parts.pop();
                } else {
                    break;
                }
            }
            parts.join(".")
        };
        let k = match base.as_str() {
            "lifetime.start" | "lifetime.end" | "x86.sse2.pause" | "donothing" | "prefetch" | "sideeffect" => Intr::Nop,
            "assume" => Intr::Assume,
            "trap" | "debugtrap" | "ubsantrap" => Intr::Trap,
            "memcpy" | "memcpy.inline" => Intr::Memcpy,
            "memmove" => Intr::Memmove,
            "memset" => Intr::Memset,
            "ctlz" => Intr::Ctlz,
            "cttz" => Intr::Cttz,
            "ctpop" => Intr::Ctpop,
            "bswap" => Intr::Bswap,
            "bitreverse" => Intr::BitReverse,
            "umin" => Intr::Umin,
            "umax" => Intr::Umax,
            "smin" => Intr::Smin,
            "smax" => Intr::Smax,
            "ucmp" => Intr::Ucmp,
            "scmp" => Intr::Scmp,
            "uadd.with.overflow" => Intr::UAddO,
            "usub.with.overflow" => Intr::USubO,
            "umul.with.overflow" => Intr::UMulO,
            "sadd.with.overflow" => Intr::SAddO,
            "ssub.with.overflow" => Intr::SSubO,
            "smul.with.overflow" => Intr::SMulO,
            "uadd.sat" => Intr::UAddSat,
            "usub.sat" => Intr::USubSat,
            "sadd.sat" => Intr::SAddSat,
            "ssub.sat" => Intr::SSubSat,
            "abs" => Intr::Abs,
            "fshl" => Intr::Fshl,
            "fshr" => Intr::Fshr,
            "is.constant" => Intr::IsConstant,
            "threadlocal.address" | "expect" | "launder.invariant.group" | "ptrmask_none" | "expect.with.probability" => Intr::Ident,
            "fabs" => Intr::Fabs,
            "sqrt" => Intr::F1(0),
            "floor" => Intr::F1(1),
            "ceil" => Intr::F1(2),
            "trunc" => Intr::F1(3),
            "round" => Intr::F1(4),
            "rint" | "nearbyint" | "roundeven" => Intr::F1(5),
            "copysign" => Intr::F1(6),
            "minnum" | "minimum" | "minimumnum" => Intr::F1(7),
            "maxnum" | "maximum" | "maximumnum" => Intr::F1(8),
            "fptoui.sat" | "fptosi.sat" => {
                if tys[0].nslots() != 1 {
                    self.code.push(Inst::Bad(format!("intrinsic {n} on vectors").into()));
                } else {
                    self.code.push(Inst::FToI { signed: base == "fptosi.sat", to: rt.scalar_w() as u16, dbl: tys[0] == Ty::Double, d, a: args[0] });
                }
                return;
            }
            "x86.xgetbv" => Intr::Zero,
            x => {
                self.code.push(Inst::Bad(format!("intrinsic {x}").into()));
                return;
            }
        };
        // Width of the operation: first argument's lane width (for cmp too).
        let w = match tys.first() {
            Some(Ty::Meta) | None => 0,
            Some(t) => Self::lane_ty(t).scalar_w(),
        };
        let lanes = match tys.first() {
            Some(Ty::Vec(n, _)) => *n as usize,
            _ => 1,
        };
        if k == Intr::Nop {
            return;
        }
        if lanes == 1 {
            self.code.push(Inst::Intrinsic { k, w: if k == Intr::Ucmp || k == Intr::Scmp { (w | (rt.scalar_w() << 8)) as u16 } else { w as u16 }, d, args: args.into() });
        } else {
            // Lane-wise; arguments that are scalars (immarg) are shared.
            let mut offs = Vec::new();
            let mut o = 0;
            for t in tys {
                offs.push((o, t.nslots()));
                o += t.nslots();
            }
            for lane in 0..lanes {
                let a: Vec<O> = offs.iter().map(|(o, n)| if *n == 1 { args[*o] } else { args[o + lane] }).collect();
                self.code.push(Inst::Intrinsic { k, w: w as u16, d: d + lane as u32, args: a.into() });
            }
        }
    }
}

fn label_of(line: &'static str) -> Option<&'static str> {
    let b = line.as_bytes();
    if b.is_empty() || b[0] == b' ' || b[0] == b';' {
        return None;
    }
    if b[0] == b'"' {
        let e = line[1..].find('"')? + 1;
        return Some(&line[1..e]);
    }
    let e = line.find(':')?;
    Some(&line[..e])
}
