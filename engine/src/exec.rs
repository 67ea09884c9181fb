//! Symbolic executor: runs one state until it ends, forking at undecided branches.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub base: u32,
    /// Frame object (allocas), 0 if none.
    pub obj: u64,
    pub ret: R,
    pub nret: u16,
    pub normal: Option<Edge>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub stack: Vec<Val>,
    pub mem: Mem,
    pub cons: Vec<N>,
    pub known: FxMap<u32, bool>,
    pub model: Vec<u128>,
    pub widths: Vec<u16>,
    pub names: Vec<String>,
    pub fixed: u128,
    pub trace: Vec<(Val, u8)>,
    pub steps: u64,
    pub errno: u64,
    pub forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub values: Vec<(String, u16, u128)>,
    pub trace: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub values: Vec<(String, u16, u128)>,
    pub trace: Vec<u64>,
    pub constraints: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: AtomicU64,
    pub infeasible: AtomicU64,
    pub forks: AtomicU64,
    pub steps: AtomicU64,
    pub queries: AtomicU64,
    pub cache_hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub solver_ns: AtomicU64,
    pub decided_free: AtomicU64,
}

type QKey = Box<[u32]>;
type QRes = Option<Vec<(u32, u128)>>;

pub struct Shared<'m> {
    pub m: &'m Module,
    pub queue: Mutex<(Vec<State>, usize)>,
    pub cv: Condvar,
    pub hungry: AtomicU64,
    pub stop: AtomicBool,
    pub stats: Stats,
    pub qcache: Vec<Mutex<FxMap<QKey, QRes>>>,
    pub violations: Mutex<Vec<Violation>>,
    pub errors: Mutex<Vec<String>>,
    pub samples: Mutex<Vec<Sample>>,
    pub labels: Mutex<BTreeMap<String, [u64; 3]>>,
    pub executed: Vec<AtomicBool>,
    pub builtins: Vec<Builtin>,
    pub max_steps: u64,
    pub max_samples: usize,
    pub threads: usize,
    pub errno_addr: u64,
    pub deadline: std::time::Instant,
    pub max_violations: usize,
    pub smt_dump: Mutex<Vec<(String, bool)>>,
    pub smt_dump_every: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Builtin {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    RetZero,
    RetMinus1,
    Write,
    Writev,
    Clock,
    Sysconf,
    RetOne,
    Errno,
    Syscall,
    Abort,
    Panic,
    KBits,
    KAssume,
    KCheck,
    KReach,
    KEmit,
    KConcretize,
    KIsSym,
    Unknown,
}

pub fn builtin_for(f: &FuncDef) -> Builtin {
    use Builtin::*;
    match f.name {
        // The harness has stand-ins for these.
        "open64" | "close" | "realpath" | "statx" | "getenv" if f.defined => None,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "memcpy" | "memmove" => Memcpy,
        "getenv" | "__cxa_thread_atexit_impl" | "gettid" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "close" => RetZero,
        "stat64" | "statx" | "open64" | "readlink" | "fstat64" | "lstat64" => RetMinus1,
        "clock_gettime" => Clock,
        "sysconf" => Sysconf,
        "getpid" | "getppid" | "pthread_self" => RetOne,
        "sched_yield" | "isatty" | "atexit" | "sigaction" | "signal" | "pthread_attr_destroy" | "nanosleep" | "clock_nanosleep" | "madvise" | "pthread_getspecific" | "secure_getenv" | "getuid" | "geteuid" | "pthread_setname_np" => RetZero,
        "write" => Write,
        "writev" => Writev,
        "__errno_location" => Errno,
        "syscall" | "getrandom" => Syscall,
        "abort" => Abort,
        "krsym_bits" => KBits,
        "krsym_assume" => KAssume,
        "krsym_check" => KCheck,
        "krsym_reach" => KReach,
        "krsym_emit" => KEmit,
        "krsym_concretize" => KConcretize,
        "krsym_is_symbolic" => KIsSym,
        n => {
            if n.contains("17rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("9panicking19panic_nounwind_fmt") || n.contains("__rustc10rust_panic") || n.contains("9panicking20begin_panic_handler") || n.contains("9panicking15panic_with_hook") || n.contains("5alloc18handle_alloc_error") {
                Panic
            } else if !f.defined {
                Unknown
            } else {
                None
            }
        }
    }
}

pub enum End {
    Done,
    Infeasible,
    Stopped,
}

/// Why an instruction could not complete.
pub enum Stop {
    Err(String),
    Infeasible,
    Violation(String, String),
    Stopped,
    Done,
}
type Res<T> = Result<T, Stop>;

impl From<MemErr> for Stop {
    fn from(e: MemErr) -> Stop {
        let MemErr::Bad(s) = e;
        Stop::Err(s)
    }
}

pub struct Worker<'m, 's> {
    pub sh: &'s Shared<'m>,
    pub m: &'m Module,
    pub z3: Z3,
    pub local: Vec<State>,
}

const MAX_FRAMES: usize = 4000;

impl<'m, 's> Worker<'m, 's> {
    pub fn new(sh: &'s Shared<'m>) -> Self {
        Worker { sh, m: sh.m, z3: Z3::new(120_000), local: vec![] }
    }

    pub fn work(&mut self) {
        loop {
            let st = match self.local.pop() {
                Some(s) => Some(s),
                None => {
                    let mut q = self.sh.queue.lock().unwrap();
                    q.1 -= 1; // no longer active
                    self.sh.hungry.fetch_add(1, Relaxed);
                    loop {
                        if let Some(s) = q.0.pop() {
                            q.1 += 1;
                            self.sh.hungry.fetch_sub(1, Relaxed);
                            break Some(s);
                        }
                        if q.1 == 0 || self.sh.stop.load(Relaxed) {
                            self.sh.cv.notify_all();
                            break None;
                        }
                        q = self.sh.cv.wait(q).unwrap();
                    }
                }
            };
            let Some(mut st) = st else { return };
            if self.sh.stop.load(Relaxed) {
                self.local.clear();
                continue;
            }
            if std::time::Instant::now() > self.sh.deadline {
                self.sh.errors.lock().unwrap().push("time limit reached".into());
                self.stop();
                continue;
            }
            let before = st.steps;
            let r = self.run(&mut st);
            self.sh.stats.steps.fetch_add(st.steps - before, Relaxed);
            match r {
                Stop::Done => {
                    let n = self.sh.stats.paths.fetch_add(1, Relaxed) + 1;
                    self.sample(&st, n);
                }
                Stop::Infeasible => {
                    self.sh.stats.infeasible.fetch_add(1, Relaxed);
                }
                Stop::Stopped => {}
                Stop::Err(e) => {
                    let w = self.backtrace(&st);
                    self.sh.errors.lock().unwrap().push(format!("{e}\n{w}"));
                    self.stop();
                }
                Stop::Violation(label, detail) => {
                    let d = format!("{detail}\n{}", self.backtrace(&st));
                    self.violation(&st, label, d, None);
                    self.sh.stats.paths.fetch_add(1, Relaxed);
                }
            }
        }
    }

    fn stop(&self) {
        self.sh.stop.store(true, Relaxed);
        self.sh.cv.notify_all();
    }

    fn backtrace(&self, st: &State) -> String {
        st.frames
            .iter()
            .rev()
            .take(25)
            .map(|f| format!("    at {} +{}", self.m.funcs[f.func as usize].name, f.pc))
            .collect::<Vec<_>>()
            .join("\n")
    }

    pub fn values(&self, st: &State, model: &[u128]) -> Vec<(String, u16, u128)> {
        st.widths
            .iter()
            .enumerate()
            .map(|(i, w)| (st.names[i].clone(), *w, model.get(i).copied().unwrap_or(0) & mask(*w as u32)))
            .collect()
    }
    fn trace_values(&self, st: &State, model: &[u128]) -> Vec<u64> {
        let mut memo = Default::default();
        st.trace
            .iter()
            .map(|(v, _)| match v {
                Val::I(x) => *x,
                Val::S(n) => eval(n, model, &mut memo) as u64,
            })
            .collect()
    }

    fn violation(&self, st: &State, label: String, detail: String, model: Option<&[u128]>) {
        let model = model.unwrap_or(&st.model);
        let v = Violation { label, detail, values: self.values(st, model), trace: self.trace_values(st, model) };
        let mut vs = self.sh.violations.lock().unwrap();
        if vs.iter().filter(|x| x.label == v.label).count() < 3 {
            vs.push(v);
        }
        if vs.len() >= self.sh.max_violations {
            drop(vs);
            self.stop();
        }
    }

    fn sample(&self, st: &State, n: u64) {
        let mut s = self.sh.samples.lock().unwrap();
        let mk = || Sample {
            values: self.values(st, &st.model),
            trace: self.trace_values(st, &st.model),
            constraints: {
                let t = format!("{:?}", st.cons);
                if t.len() > 600 {
                    let mut e = 600;
                    while !t.is_char_boundary(e) {
                        e -= 1;
                    }
                    format!("{}...", &t[..e])
                } else {
                    t
                }
            },
        };
        if s.len() < self.sh.max_samples {
            s.push(mk());
        } else if self.sh.max_samples > 0 {
            // Reservoir with a fixed multiplicative sequence.
            let r = (n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20) % n;
            if (r as usize) < self.sh.max_samples {
                s[r as usize] = mk();
            }
        }
    }

    // ---- solver ----

    fn slice(&self, st: &State, goal: &[N]) -> Vec<N> {
        let mut maskv = 0u128;
        for g in goal {
            maskv |= g.vars;
        }
        let mut used = vec![false; st.cons.len()];
        let mut out = Vec::new();
        loop {
            let mut changed = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && c.vars & maskv != 0 {
                    used[i] = true;
                    out.push(*c);
                    if c.vars & !maskv != 0 {
                        maskv |= c.vars;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    /// Is pc ∧ goal satisfiable? Returns a full model if so.
    pub fn feasible(&mut self, st: &State, goal: N) -> Res<Option<Vec<u128>>> {
        let mut cs = self.slice(st, &[goal]);
        cs.push(goal);
        cs.sort_by_key(|n| n.id);
        cs.dedup_by_key(|n| n.id);
        let key: QKey = cs.iter().map(|n| n.id).collect();
        let mut h = Fx::default();
        std::hash::Hash::hash(&key, &mut h);
        let shard = &self.sh.qcache[(std::hash::Hasher::finish(&h) >> 33) as usize % self.sh.qcache.len()];
        let cached = shard.lock().unwrap().get(&key).cloned();
        let res = match cached {
            Some(r) => {
                self.sh.stats.cache_hits.fetch_add(1, Relaxed);
                r
            }
            None => {
                let t = std::time::Instant::now();
                let q = self.sh.stats.queries.fetch_add(1, Relaxed) + 1;
                let mut text = String::new();
                let dump = self.sh.smt_dump_every > 0 && q % self.sh.smt_dump_every == 0;
                let a = self.z3.check(&cs, &st.widths, if dump { Some(&mut text) } else { None });
                let r = match a {
                    Answer::Sat(m) => {
                        self.sh.stats.sat.fetch_add(1, Relaxed);
                        Some(m)
                    }
                    Answer::Unsat => {
                        self.sh.stats.unsat.fetch_add(1, Relaxed);
                        None
                    }
                    Answer::Unknown => return Err(Stop::Err("solver gave up (timeout)".into())),
                };
                if dump {
                    let mut d = self.sh.smt_dump.lock().unwrap();
                    if d.len() < 40 {
                        d.push((text, r.is_some()));
                    }
                }
                self.sh.stats.solver_ns.fetch_add(t.elapsed().as_nanos() as u64, Relaxed);
                shard.lock().unwrap().insert(key, r.clone());
                r
            }
        };
        Ok(res.map(|m| {
            let mut model = st.model.clone();
            for (i, v) in m {
                if i as usize >= model.len() {
                    model.resize(i as usize + 1, 0);
                }
                model[i as usize] = v;
            }
            debug_assert!({
                let mut memo = Default::default();
                cs.iter().all(|c| eval(c, &model, &mut memo) == 1)
            });
            model
        }))
    }

    fn eval(&self, st: &State, n: N) -> u128 {
        let mut memo = Default::default();
        eval(n, &st.model, &mut memo)
    }

    pub fn add(&self, st: &mut State, c: N) {
        if c.is_const() || st.known.get(&c.id) == Some(&true) {
            return;
        }
        st.known.insert(c.id, true);
        st.known.insert(not1(c).id, false);
        if c.op == Op::And && c.w == 1 {
            self.add(st, c.kid(0));
            self.add(st, c.kid(1));
            return;
        }
        // not (a or b)
        if c.op == Op::Xor && c.kid(1).is_const() && c.kid(1).c == 1 && c.kid(0).op == Op::Or {
            let o = c.kid(0);
            self.add(st, not1(o.kid(0)));
            self.add(st, not1(o.kid(1)));
            return;
        }
        st.cons.push(c);
        // Variables that became constant.
        match c.op {
            Op::Var => st.fixed |= c.vars,
            Op::Eq if c.kid(0).op == Op::Var && c.kid(1).is_const() => st.fixed |= c.vars,
            Op::Xor if c.kid(0).op == Op::Var && c.kid(1).is_const() && c.w == 1 => st.fixed |= c.vars,
            _ => {}
        }
    }

    /// Decide a 1-bit condition; forks the other side (with `patch` applied) if both are feasible.
    fn branch(&mut self, st: &mut State, c: N, patch: impl FnOnce(&mut Self, &mut State, bool)) -> Res<bool> {
        if c.is_const() {
            return Ok(c.c == 1);
        }
        if let Some(b) = st.known.get(&c.id) {
            return Ok(*b);
        }
        let cur = self.eval(st, c) == 1;
        let (yes, no) = if cur { (c, not1(c)) } else { (not1(c), c) };
        if let Some(model) = self.feasible(st, no)? {
            let mut other = st.clone();
            other.model = model;
            other.forks += 1;
            self.add(&mut other, no);
            patch(self, &mut other, !cur);
            self.spawn(other);
            self.add(st, yes);
        } else {
            st.known.insert(yes.id, true);
            st.known.insert(no.id, false);
        }
        Ok(cur)
    }

    fn spawn(&mut self, s: State) {
        self.sh.stats.forks.fetch_add(1, Relaxed);
        self.local.push(s);
        if self.sh.hungry.load(Relaxed) > 0 && self.local.len() > 1 {
            let mut q = self.sh.queue.lock().unwrap();
            // Give away the oldest (largest) subtrees.
            let n = (self.local.len() / 2).max(1);
            for s in self.local.drain(..n) {
                q.0.push(s);
            }
            self.sh.cv.notify_all();
        } else if self.sh.hungry.load(Relaxed) > 0 {
            let mut q = self.sh.queue.lock().unwrap();
            if q.0.is_empty() {
                let s = self.local.remove(0);
                q.0.push(s);
                self.sh.cv.notify_one();
            }
        }
    }

    /// Make a value concrete, forking over its other values (they re-execute the current instruction).
    fn concretize(&mut self, st: &mut State, v: Val) -> Res<u64> {
        match v {
            Val::I(x) => Ok(x),
            Val::S(n) if n.is_const() => Ok(n.c as u64),
            Val::S(n) => {
                if n.vars & !st.fixed == 0 {
                    return Ok(self.eval(st, n) as u64);
                }
                let x = self.eval(st, n);
                let eq = bin(Op::Eq, n, konst(n.w as u32, x));
                let b = self.branch(st, eq, |_, _, _| {})?;
                if !b {
                    // The model satisfies eq, so it cannot be decided false.
                    return Err(Stop::Err("internal: concretize".into()));
                }
                Ok(x as u64)
            }
        }
    }

    // ---- memory with symbolic addresses ----

    fn load(&mut self, st: &mut State, p: Val, off: u32, w: u32) -> Res<Val> {
        match p {
            Val::I(a) => Ok(st.mem.load(self.m, a.wrapping_add(off as u64), w)?),
            Val::S(n) => self.load_symbolic(st, n, off, w),
        }
    }
    fn load_symbolic(&mut self, st: &mut State, n: N, off: u32, w: u32) -> Res<Val> {
        if n.vars & !st.fixed != 0 {
            if n.op == Op::Ite {
                if let Some(v) = self.load_tree(st, n, off, w) {
                    return Ok(to_val(v));
                }
            }
            // Table lookup by a single small variable.
            if n.vars.count_ones() == 1 {
                let idx = n.vars.trailing_zeros() as usize;
                let vw = st.widths[idx] as u32;
                if vw <= 8 {
                    let v = var(vw, idx as u32);
                    let mut model = st.model.clone();
                    let mut groups: Vec<(N, Vec<u128>)> = Vec::new();
                    let mut bad = konst(1, 0);
                    for x in 0..(1u128 << vw) {
                        model[idx] = x;
                        let a = eval(n, &model, &mut Default::default()) as u64;
                        match st.mem.load(self.m, a.wrapping_add(off as u64), w) {
                            Ok(r) => {
                                let r = to_node(r, w);
                                match groups.iter_mut().find(|g| std::ptr::eq(g.0, r)) {
                                    Some(g) => g.1.push(x),
                                    None => groups.push((r, vec![x])),
                                }
                            }
                            Err(_) => bad = bin(Op::Or, bad, bin(Op::Eq, v, konst(vw, x))),
                        }
                    }
                    let ok = groups.len() <= 64 && (bad.is_const() || self.feasible(st, bad)?.is_none());
                    if ok && !groups.is_empty() {
                        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                        let mut acc = groups[0].0;
                        for (r, xs) in &groups[1..] {
                            acc = ite(ranges(v, vw, xs), *r, acc);
                        }
                        return Ok(to_val(acc));
                    }
                }
            }
        }
        let a = self.concretize(st, Val::S(n))?;
        Ok(st.mem.load(self.m, a.wrapping_add(off as u64), w)?)
    }
    fn load_tree(&self, st: &State, n: N, off: u32, w: u32) -> Option<N> {
        if n.is_const() {
            let r = st.mem.load(self.m, (n.c as u64).wrapping_add(off as u64), w).ok()?;
            return Some(to_node(r, w));
        }
        if n.op != Op::Ite {
            return None;
        }
        if let Some(b) = st.known.get(&n.kid(0).id) {
            return self.load_tree(st, if *b { n.kid(1) } else { n.kid(2) }, off, w);
        }
        let a = self.load_tree(st, n.kid(1), off, w)?;
        let b = self.load_tree(st, n.kid(2), off, w)?;
        Some(ite(n.kid(0), a, b))
    }
    fn store(&mut self, st: &mut State, p: Val, off: u32, w: u32, v: Val) -> Res<()> {
        let a = self.concretize(st, p)?;
        Ok(st.mem.store(self.m, a.wrapping_add(off as u64), w, v)?)
    }

    // ---- main loop ----

    pub fn push_frame(&mut self, st: &mut State, f: u32, args: &[Val], ret: R, nret: u16, normal: Option<Edge>) -> Res<()> {
        if st.frames.len() >= MAX_FRAMES {
            return Err(Stop::Violation("stack-overflow".into(), format!("more than {MAX_FRAMES} frames")));
        }
        let code = self.m.func_code(f as usize);
        self.sh.executed[f as usize].store(true, Relaxed);
        let base = st.stack.len() as u32;
        st.stack.resize(base as usize + code.nregs as usize, Val::I(0));
        let n = (code.nparams as usize).min(args.len());
        st.stack[base as usize..base as usize + n].copy_from_slice(&args[..n]);
        let obj = if code.frame_size > 0 { st.mem.alloc(code.frame_size as usize) } else { 0 };
        st.frames.push(Frame { func: f, pc: 0, base, obj, ret, nret, normal });
        Ok(())
    }

    fn run(&mut self, st: &mut State) -> Stop {
        match self.run_(st) {
            Ok(()) => Stop::Done,
            Err(e) => e,
        }
    }

    fn run_(&mut self, st: &mut State) -> Res<()> {
        let m = self.m;
        'frame: loop {
            let Some(fr) = st.frames.last() else { return Ok(()) };
            let f: &Func = m.func_code(fr.func as usize);
            let base = fr.base as usize;
            let obj = fr.obj;
            let mut pc = fr.pc as usize;
            let consts = &f.consts[..];
            macro_rules! raw {
                ($o:expr) => {{
                    let o = $o;
                    if o & HI != 0 {
                        consts[(o & !HI) as usize]
                    } else {
                        st.stack[base + o as usize]
                    }
                }};
            }
            macro_rules! get {
                ($o:expr) => {{
                    match raw!($o) {
                        Val::I(x) => Val::I(x),
                        Val::S(n) => {
                            if n.vars & !st.fixed == 0 && n.w <= 64 {
                                Val::I(eval(n, &st.model, &mut Default::default()) as u64)
                            } else {
                                Val::S(n)
                            }
                        }
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.stack[base + $d as usize] = v;
                }};
            }
            macro_rules! take_edge {
                ($e:expr) => {{
                    let e: &Edge = $e;
                    if e.nmoves == 1 {
                        let (d, s) = f.moves[e.moves as usize];
                        let v = get!(s);
                        set!(d, v);
                    } else if e.nmoves > 0 {
                        let mv = &f.moves[e.moves as usize..(e.moves + e.nmoves) as usize];
                        let mut tmp = [Val::I(0); 16];
                        if mv.len() <= 16 {
                            for (i, (_, s)) in mv.iter().enumerate() {
                                tmp[i] = get!(*s);
                            }
                            for (i, (d, _)) in mv.iter().enumerate() {
                                set!(*d, tmp[i]);
                            }
                        } else {
                            let t: Vec<Val> = mv.iter().map(|(_, s)| get!(*s)).collect();
                            for (i, (d, _)) in mv.iter().enumerate() {
                                set!(*d, t[i]);
                            }
                        }
                    }
                    pc = e.target as usize;
                }};
            }
            macro_rules! sync {
                () => {
                    st.frames.last_mut().unwrap().pc = pc as u32
                };
            }
            loop {
                st.steps += 1;
                let inst = &f.code[pc];
                match inst {
                    Inst::Bin { op, w, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        let r = match (x, y) {
                            (Val::I(x), Val::I(y)) => {
                                let w = *w as u32;
                                let mk = mask64(w);
                                Val::I(match op {
                                    Op::Add => x.wrapping_add(y) & mk,
                                    Op::Sub => x.wrapping_sub(y) & mk,
                                    Op::Mul => x.wrapping_mul(y) & mk,
                                    Op::And => x & y,
                                    Op::Or => x | y,
                                    Op::Xor => x ^ y,
                                    Op::Shl => {
                                        if y >= w as u64 {
                                            0
                                        } else {
                                            (x << y) & mk
                                        }
                                    }
                                    Op::LShr => {
                                        if y >= w as u64 {
                                            0
                                        } else {
                                            x >> y
                                        }
                                    }
                                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => {
                                        sync!();
                                        return Err(Stop::Err("division by zero".into()));
                                    }
                                    Op::UDiv => x / y,
                                    Op::URem => x % y,
                                    _ => fold2(*op, w, x as u128, y as u128) as u64 & mk,
                                })
                            }
                            _ => {
                                let w = *w as u32;
                                to_val(bin(*op, to_node(x, w), to_node(y, w)))
                            }
                        };
                        set!(*d, r);
                    }
                    Inst::Icmp { p, w, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        let r = match (x, y) {
                            (Val::I(x), Val::I(y)) => {
                                let w = *w as u32;
                                let r = match p {
                                    Pred::Eq => x == y,
                                    Pred::Ne => x != y,
                                    Pred::Ult => x < y,
                                    Pred::Ule => x <= y,
                                    Pred::Ugt => x > y,
                                    Pred::Uge => x >= y,
                                    Pred::Slt => sext64(x, w) < sext64(y, w),
                                    Pred::Sle => sext64(x, w) <= sext64(y, w),
                                    Pred::Sgt => sext64(x, w) > sext64(y, w),
                                    Pred::Sge => sext64(x, w) >= sext64(y, w),
                                };
                                Val::I(r as u64)
                            }
                            _ => {
                                let w = *w as u32;
                                to_val(icmp(*p, to_node(x, w), to_node(y, w)))
                            }
                        };
                        set!(*d, r);
                    }
                    Inst::Select { w, d, c, a, b } => {
                        let r = match get!(*c) {
                            Val::I(1) => get!(*a),
                            Val::I(_) => get!(*b),
                            Val::S(n) => match st.known.get(&n.id) {
                                Some(true) => get!(*a),
                                Some(false) => get!(*b),
                                None => {
                                    let (x, y) = (get!(*a), get!(*b));
                                    to_val(ite(n, to_node(x, *w as u32), to_node(y, *w as u32)))
                                }
                            },
                        };
                        set!(*d, r);
                    }
                    Inst::Zext { d, a, from, to } => {
                        let r = match get!(*a) {
                            Val::I(x) if *to <= 64 => Val::I(x),
                            v => to_val(zext(to_node(v, *from as u32), *to as u32)),
                        };
                        set!(*d, r);
                    }
                    Inst::Sext { d, a, from, to } => {
                        let r = match get!(*a) {
                            Val::I(x) if *to <= 64 => Val::I(sext64(x, *from as u32) as u64 & mask64(*to as u32)),
                            v => to_val(sext(to_node(v, *from as u32), *to as u32)),
                        };
                        set!(*d, r);
                    }
                    Inst::Trunc { d, a, from, to } => {
                        let r = match get!(*a) {
                            Val::I(x) => Val::I(x & mask64(*to as u32)),
                            v => to_val(extract(to_node(v, *from as u32), 0, *to as u32)),
                        };
                        set!(*d, r);
                    }
                    Inst::Mov { d, a } => {
                        let v = get!(*a);
                        set!(*d, v);
                    }
                    Inst::Load { d, p, off, w } => {
                        let v = match get!(*p) {
                            Val::I(a) => match st.mem.load(m, a.wrapping_add(*off as u64), *w as u32) {
                                Ok(v) => v,
                                Err(e) => {
                                    sync!();
                                    return Err(e.into());
                                }
                            },
                            v => {
                                sync!();
                                self.load(st, v, *off, *w as u32)?
                            }
                        };
                        let v = match v {
                            Val::S(n) if n.vars & !st.fixed == 0 && n.w <= 64 => Val::I(eval(n, &st.model, &mut Default::default()) as u64),
                            v => v,
                        };
                        set!(*d, v);
                    }
                    Inst::Store { v, p, off, w } => {
                        let x = get!(*v);
                        match get!(*p) {
                            Val::I(a) => {
                                if let Err(e) = st.mem.store(m, a.wrapping_add(*off as u64), *w as u32, x) {
                                    sync!();
                                    return Err(e.into());
                                }
                            }
                            a => {
                                sync!();
                                self.store(st, a, *off, *w as u32, x)?;
                            }
                        }
                    }
                    Inst::GepC { d, a, off } => {
                        let r = match get!(*a) {
                            Val::I(x) => Val::I(x.wrapping_add(*off as u64)),
                            Val::S(n) => to_val(bin(Op::Add, n, konst(64, *off as u64 as u128))),
                        };
                        set!(*d, r);
                    }
                    Inst::Gep1 { d, a, off, i, iw, scale } => {
                        let (x, y) = (get!(*a), get!(*i));
                        let r = gep_add(x, y, *iw as u32, *scale);
                        let r = match r {
                            Val::I(x) => Val::I(x.wrapping_add(*off as u64)),
                            Val::S(n) => to_val(bin(Op::Add, n, konst(64, *off as u64 as u128))),
                        };
                        set!(*d, r);
                    }
                    Inst::GepN { d, a, off, idx } => {
                        let mut r = get!(*a);
                        for (o, iw, s) in idx.iter() {
                            let y = get!(*o);
                            r = gep_add(r, y, *iw as u32, *s);
                        }
                        let r = match r {
                            Val::I(x) => Val::I(x.wrapping_add(*off as u64)),
                            Val::S(n) => to_val(bin(Op::Add, n, konst(64, *off as u64 as u128))),
                        };
                        set!(*d, r);
                    }
                    Inst::Alloca { d, off } => {
                        set!(*d, Val::I(obj + *off as u64));
                    }
                    Inst::Br(e) => {
                        take_edge!(e);
                        continue;
                    }
                    Inst::CondBr { c, t, f: fe } => {
                        let b = match get!(*c) {
                            Val::I(x) => x == 1,
                            Val::S(n) => match st.known.get(&n.id) {
                                Some(b) => {
                                    self.sh.stats.decided_free.fetch_add(1, Relaxed);
                                    *b
                                }
                                None => {
                                    sync!();
                                    if st.steps > self.sh.max_steps {
                                        return Err(Stop::Violation("step-limit".into(), format!("more than {} instructions on one path", self.sh.max_steps)));
                                    }
                                    if self.sh.stop.load(Relaxed) {
                                        return Err(Stop::Stopped);
                                    }
                                    // The forked copy re-executes this branch; its condition is then known.
                                    self.branch(st, n, |_, _, _| {})?
                                }
                            },
                        };
                        if b {
                            take_edge!(t)
                        } else {
                            take_edge!(fe)
                        }
                        if st.steps > self.sh.max_steps {
                            sync!();
                            return Err(Stop::Violation("step-limit".into(), format!("more than {} instructions on one path", self.sh.max_steps)));
                        }
                        continue;
                    }
                    Inst::Switch { v, w, def, cases } => {
                        let e = match get!(*v) {
                            Val::I(x) => cases.iter().find(|c| c.0 as u64 == x).map(|c| &c.1).unwrap_or(def),
                            Val::S(n) => {
                                sync!();
                                if self.sh.stop.load(Relaxed) {
                                    return Err(Stop::Stopped);
                                }
                                // Group by target; test the groups one after another.
                                let w = *w as u32;
                                let mut groups: Vec<(&Edge, N)> = Vec::new();
                                let mut any = konst(1, 0);
                                for (c, e) in cases.iter() {
                                    let eq = bin(Op::Eq, n, konst(w, *c));
                                    if e.target != def.target {
                                        any = bin(Op::Or, any, eq);
                                    }
                                    match groups.iter_mut().find(|g| g.0.target == e.target) {
                                        Some(g) => g.1 = bin(Op::Or, g.1, eq),
                                        None => groups.push((e, eq)),
                                    }
                                }
                                groups.retain(|g| g.0.target != def.target);
                                let _ = any;
                                let mut chosen = def;
                                for (e, c) in groups {
                                    if self.branch(st, c, |_, _, _| {})? {
                                        chosen = e;
                                        break;
                                    }
                                }
                                chosen
                            }
                        };
                        take_edge!(e);
                        continue;
                    }
                    Inst::Ret(vals) => {
                        let mut tmp = [Val::I(0); 16];
                        let big: Vec<Val>;
                        let vs: &[Val] = if vals.len() <= 16 {
                            for (i, o) in vals.iter().enumerate() {
                                tmp[i] = get!(*o);
                            }
                            &tmp[..vals.len()]
                        } else {
                            big = vals.iter().map(|o| get!(*o)).collect();
                            &big
                        };
                        let fr = st.frames.pop().unwrap();
                        if fr.obj != 0 {
                            st.mem.free(fr.obj)?;
                        }
                        st.stack.truncate(fr.base as usize);
                        match st.frames.last_mut() {
                            None => return Ok(()),
                            Some(caller) => {
                                let cb = caller.base as usize;
                                for i in 0..fr.nret as usize {
                                    st.stack[cb + fr.ret as usize + i] = vs[i];
                                }
                                if let Some(e) = fr.normal {
                                    let cf = m.func_code(caller.func as usize);
                                    let mv = &cf.moves[e.moves as usize..(e.moves + e.nmoves) as usize];
                                    let t: Vec<Val> = mv
                                        .iter()
                                        .map(|(_, s)| if s & HI != 0 { cf.consts[(s & !HI) as usize] } else { st.stack[cb + *s as usize] })
                                        .collect();
                                    for (i, (d, _)) in mv.iter().enumerate() {
                                        st.stack[cb + *d as usize] = t[i];
                                    }
                                    st.frames.last_mut().unwrap().pc = e.target;
                                }
                            }
                        }
                        continue 'frame;
                    }
                    Inst::Unreachable => {
                        sync!();
                        return Err(Stop::Violation("unreachable".into(), "reached an unreachable instruction".into()));
                    }
                    Inst::Call { f: callee, args, d, n, normal } => {
                        let mut tmp = [Val::I(0); 24];
                        let big: Vec<Val>;
                        let vs: &[Val] = if args.len() <= 24 {
                            for (i, o) in args.iter().enumerate() {
                                tmp[i] = get!(*o);
                            }
                            &tmp[..args.len()]
                        } else {
                            big = args.iter().map(|o| get!(*o)).collect();
                            &big
                        };
                        let bi = self.sh.builtins[*callee as usize];
                        sync!();
                        if bi == Builtin::None {
                            st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                            if let Err(e) = self.push_frame(st, *callee, vs, *d, *n, *normal) {
                                return Err(e);
                            }
                            continue 'frame;
                        }
                        let r = self.builtin(st, bi, *callee, vs)?;
                        if *n > 0 {
                            set!(*d, r);
                        }
                        if let Some(e) = normal {
                            take_edge!(e);
                            continue;
                        }
                    }
                    Inst::CallInd { f: callee, args, d, n, normal } => {
                        sync!();
                        let fv = get!(*callee);
                        let a = self.concretize(st, fv)?;
                        let vs: Vec<Val> = args.iter().map(|o| get!(*o)).collect();
                        let id = a >> 32;
                        if id < FN_BASE || id - FN_BASE >= m.funcs.len() as u64 || a as u32 != 0 {
                            return Err(Stop::Err(format!("call of {a:#x}")));
                        }
                        let fi = (id - FN_BASE) as u32;
                        let bi = self.sh.builtins[fi as usize];
                        if bi == Builtin::None {
                            st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                            self.push_frame(st, fi, &vs, *d, *n, *normal)?;
                            continue 'frame;
                        }
                        let r = self.builtin(st, bi, fi, &vs)?;
                        if *n > 0 {
                            set!(*d, r);
                        }
                        if let Some(e) = normal {
                            take_edge!(e);
                            continue;
                        }
                    }
                    Inst::Intrinsic { k, w, d, args } => {
                        sync!();
                        let mut tmp = [Val::I(0); 4];
                        for (i, o) in args.iter().take(4).enumerate() {
                            tmp[i] = get!(*o);
                        }
                        let (r0, r1) = self.intrinsic(st, *k, *w, &tmp[..args.len().min(4)])?;
                        if *d != u32::MAX {
                            if let Some(r) = r0 {
                                set!(*d, r);
                            }
                            if let Some(r) = r1 {
                                set!(*d + 1, r);
                            }
                        }
                    }
                    Inst::Bitcast { src, sw, d, dn, dw } => {
                        let vs: Vec<Val> = src.iter().map(|o| get!(*o)).collect();
                        let out = bitcast(&vs, *sw as u32, *dn as usize, *dw as u32);
                        for (i, v) in out.into_iter().enumerate() {
                            set!(*d + i as u32, v);
                        }
                    }
                    Inst::ExtractElt { d, src, i } => {
                        sync!();
                        let iv = get!(*i);
                        let i = self.concretize(st, iv)? as usize;
                        let v = get!(src[i]);
                        set!(*d, v);
                    }
                    Inst::InsertElt { d, src, v, i } => {
                        sync!();
                        let iv = get!(*i);
                        let i = self.concretize(st, iv)? as usize;
                        let vs: Vec<Val> = src.iter().enumerate().map(|(j, o)| if j == i { get!(*v) } else { get!(*o) }).collect();
                        for (i, x) in vs.into_iter().enumerate() {
                            set!(*d + i as u32, x);
                        }
                    }
                    Inst::Rmw { d, p, v, w, op } => {
                        sync!();
                        let w = *w as u32;
                        let pv = get!(*p);
                        let a = self.concretize(st, pv)?;
                        let old = st.mem.load(m, a, w)?;
                        let v = get!(*v);
                        let new = match op {
                            0 => v,
                            k => {
                                let (o, v) = (to_node(old, w), to_node(v, w));
                                to_val(match k {
                                    1 => bin(Op::Add, o, v),
                                    2 => bin(Op::Sub, o, v),
                                    3 => bin(Op::And, o, v),
                                    4 => bin(Op::Or, o, v),
                                    5 => bin(Op::Xor, o, v),
                                    6 => ite(bin(Op::Ult, o, v), v, o),
                                    _ => ite(bin(Op::Ult, o, v), o, v),
                                })
                            }
                        };
                        st.mem.store(m, a, w, new)?;
                        set!(*d, old);
                    }
                    Inst::CmpXchg { d, p, cmp, new, w } => {
                        sync!();
                        let w = *w as u32;
                        let pv = get!(*p);
                        let a = self.concretize(st, pv)?;
                        let old = st.mem.load(m, a, w)?;
                        let c = get!(*cmp);
                        let ov = self.concretize(st, old)?;
                        let cv = self.concretize(st, c)?;
                        if ov == cv {
                            let n = get!(*new);
                            st.mem.store(m, a, w, n)?;
                        }
                        set!(*d, Val::I(ov));
                        set!(*d + 1, Val::I((ov == cv) as u64));
                    }
                    Inst::FBin { op, dbl, d, a, b } => {
                        sync!();
                        let (x, y) = (get!(*a), get!(*b));
                        let (x, y) = (self.concretize(st, x)?, self.concretize(st, y)?);
                        let r = if *dbl {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            (match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            })
                            .to_bits()
                        } else {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            })
                            .to_bits() as u64
                        };
                        set!(*d, Val::I(r));
                    }
                    Inst::FNeg { dbl, d, a } => {
                        sync!();
                        let x = get!(*a);
                        let x = self.concretize(st, x)?;
                        set!(*d, Val::I(x ^ if *dbl { 1 << 63 } else { 1 << 31 }));
                    }
                    Inst::Fcmp { p, dbl, d, a, b } => {
                        sync!();
                        let (x, y) = (get!(*a), get!(*b));
                        let (x, y) = (self.concretize(st, x)?, self.concretize(st, y)?);
                        let (x, y) = if *dbl {
                            (f64::from_bits(x), f64::from_bits(y))
                        } else {
                            (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                        };
                        let un = x.is_nan() || y.is_nan();
                        let r = match p & 7 {
                            0 => x == y,
                            1 => x > y,
                            2 => x >= y,
                            3 => x < y,
                            4 => x <= y,
                            5 => !un && x != y,
                            _ => !un,
                        };
                        let r = if *p == 14 { un } else if *p >= 8 { un || r } else { r };
                        set!(*d, Val::I(r as u64));
                    }
                    Inst::IToF { signed, from, dbl, d, a } => {
                        sync!();
                        let x = get!(*a);
                        let x = self.concretize(st, x)?;
                        let v = if *signed { sext64(x, *from as u32) as f64 } else { x as f64 };
                        let r = if *dbl {
                            v.to_bits()
                        } else if *signed {
                            (sext64(x, *from as u32) as f32).to_bits() as u64
                        } else {
                            (x as f32).to_bits() as u64
                        };
                        set!(*d, Val::I(r));
                    }
                    Inst::FToI { signed, to, dbl, d, a } => {
                        sync!();
                        let x = get!(*a);
                        let x = self.concretize(st, x)?;
                        let v = if *dbl { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        if *to > 64 {
                            return Err(Stop::Err("unsupported: float to a wide integer".into()));
                        }
                        let (lo, hi) = (-(2f64.powi(*to as i32 - 1)), 2f64.powi(*to as i32 - 1));
                        let r = if *signed {
                            if v >= hi { (1u64 << (*to - 1)) - 1 } else if v < lo { 1u64 << (*to - 1) } else { v as i64 as u64 }
                        } else if v >= 2f64.powi(*to as i32) {
                            u64::MAX
                        } else {
                            v as u64
                        };
                        let r = r & mask64(*to as u32);
                        set!(*d, Val::I(r));
                    }
                    Inst::FCast { to_dbl, d, a } => {
                        sync!();
                        let x = get!(*a);
                        let x = self.concretize(st, x)?;
                        let r = if *to_dbl { (f32::from_bits(x as u32) as f64).to_bits() } else { (f64::from_bits(x) as f32).to_bits() as u64 };
                        set!(*d, Val::I(r));
                    }
                    Inst::Bad(s) => {
                        sync!();
                        return Err(Stop::Err(format!("unsupported: {s}")));
                    }
                }
                pc += 1;
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, w: u16, a: &[Val]) -> Res<(Option<Val>, Option<Val>)> {
        let w = if k == Intr::Ucmp || k == Intr::Scmp { (w & 0xff) as u32 } else { w as u32 };
        let one = |v: Val| Ok((Some(v), None));
        let nd = |i: usize| to_node(a[i], w);
        match k {
            Intr::Nop => Ok((None, None)),
            Intr::Assume => Ok((None, None)),
            Intr::Trap => Err(Stop::Violation("trap".into(), "trap instruction".into())),
            Intr::Memcpy | Intr::Memmove => {
                let n = self.concretize(st, a[2])?;
                if n == 0 {
                    return Ok((None, None));
                }
                let d = self.concretize(st, a[0])?;
                let s = self.concretize(st, a[1])?;
                st.mem.copy(self.m, d, s, n as usize)?;
                Ok((None, None))
            }
            Intr::Memset => {
                let n = self.concretize(st, a[2])?;
                if n == 0 {
                    return Ok((None, None));
                }
                let d = self.concretize(st, a[0])?;
                st.mem.fill(self.m, d, a[1], n as usize)?;
                Ok((None, None))
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => match a[0] {
                Val::I(x) => {
                    let r = match k {
                        Intr::Ctlz => {
                            if x == 0 {
                                w
                            } else {
                                x.leading_zeros() - (64 - w)
                            }
                        }
                        Intr::Cttz => {
                            if x == 0 {
                                w
                            } else {
                                x.trailing_zeros()
                            }
                        }
                        _ => x.count_ones(),
                    };
                    one(Val::I(r as u64))
                }
                Val::S(n) => {
                    let r = match k {
                        Intr::Ctpop => {
                            let mut acc = konst(w, 0);
                            for i in 0..w {
                                acc = bin(Op::Add, acc, zext_to(extract(n, i, 1), w));
                            }
                            acc
                        }
                        Intr::Cttz => {
                            let mut acc = konst(w, w as u128);
                            for i in (0..w).rev() {
                                acc = ite(extract(n, i, 1), konst(w, i as u128), acc);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = konst(w, w as u128);
                            for i in 0..w {
                                acc = ite(extract(n, i, 1), konst(w, (w - 1 - i) as u128), acc);
                            }
                            acc
                        }
                    };
                    // The index of the first match in a chunk: everything after depends on it.
                    if k == Intr::Cttz && w >= 16 {
                        let x = self.concretize(st, to_val(r))?;
                        return Ok((Some(Val::I(x)), None));
                    }
                    one(to_val(r))
                }
            },
            Intr::Bswap | Intr::BitReverse => {
                let n = nd(0);
                let step = if k == Intr::Bswap { 8 } else { 1 };
                let mut acc = extract(n, 0, step);
                for i in 1..w / step {
                    acc = concat(acc, extract(n, i * step, step));
                }
                one(to_val(acc))
            }
            Intr::Umin => one(to_val({
                let (x, y) = (nd(0), nd(1));
                ite(bin(Op::Ult, x, y), x, y)
            })),
            Intr::Umax => one(to_val({
                let (x, y) = (nd(0), nd(1));
                ite(bin(Op::Ult, x, y), y, x)
            })),
            Intr::Smin => one(to_val({
                let (x, y) = (nd(0), nd(1));
                ite(bin(Op::Slt, x, y), x, y)
            })),
            Intr::Smax => one(to_val({
                let (x, y) = (nd(0), nd(1));
                ite(bin(Op::Slt, x, y), y, x)
            })),
            Intr::Ucmp | Intr::Scmp => {
                let (x, y) = (nd(0), nd(1));
                let lt = bin(if k == Intr::Ucmp { Op::Ult } else { Op::Slt }, x, y);
                let eq = bin(Op::Eq, x, y);
                // Result width is i8 in everything rustc emits.
                one(to_val(ite(lt, konst(8, 0xff), ite(eq, konst(8, 0), konst(8, 1)))))
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let op = match k {
                    Intr::UAddO | Intr::SAddO => Op::Add,
                    Intr::USubO | Intr::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = matches!(k, Intr::SAddO | Intr::SSubO | Intr::SMulO);
                let (x, y) = (nd(0), nd(1));
                let r = bin(op, x, y);
                let ww = if op == Op::Mul { (2 * w).min(128) } else { (w + 1).min(128) };
                if w > 64 && op == Op::Mul && !(x.is_const() && y.is_const()) {
                    return Err(Stop::Err("wide symbolic multiplication".into()));
                }
                let (o, ex);
                if signed {
                    let (a, b) = (sext(x, ww), sext(y, ww));
                    ex = bin(op, a, b);
                    o = not1(bin(Op::Eq, ex, sext(r, ww)));
                } else {
                    let (a, b) = (zext_to(x, ww), zext_to(y, ww));
                    ex = bin(op, a, b);
                    o = match op {
                        Op::Sub => bin(Op::Ult, x, y),
                        _ => not1(bin(Op::Eq, ex, zext_to(r, ww))),
                    };
                }
                Ok((Some(to_val(r)), Some(to_val(o))))
            }
            Intr::UAddSat => {
                let (x, y) = (nd(0), nd(1));
                let r = bin(Op::Add, x, y);
                one(to_val(ite(bin(Op::Ult, r, x), konst(w, mask(w)), r)))
            }
            Intr::USubSat => {
                let (x, y) = (nd(0), nd(1));
                one(to_val(ite(bin(Op::Ult, x, y), konst(w, 0), bin(Op::Sub, x, y))))
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (x, y) = (sext(nd(0), w + 1), sext(nd(1), w + 1));
                let r = bin(if k == Intr::SAddSat { Op::Add } else { Op::Sub }, x, y);
                let max = konst(w + 1, mask(w) >> 1);
                let min = konst(w + 1, !(mask(w) >> 1));
                let r = ite(bin(Op::Slt, max, r), max, ite(bin(Op::Slt, r, min), min, r));
                one(to_val(extract(r, 0, w)))
            }
            Intr::Abs => {
                let x = nd(0);
                one(to_val(ite(bin(Op::Slt, x, konst(w, 0)), bin(Op::Sub, konst(w, 0), x), x)))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = match a[2] {
                    Val::I(s) => s as u32 % w,
                    v => self.concretize(st, v)? as u32 % w,
                };
                let (x, y) = (nd(0), nd(1));
                if s == 0 {
                    return one(to_val(if k == Intr::Fshl { x } else { y }));
                }
                let s = if k == Intr::Fshl { s } else { w - s };
                // high part: low (w-s) bits of x, then high s bits of y
                one(to_val(concat(extract(x, 0, w - s), extract(y, w - s, s))))
            }
            Intr::IsConstant => one(Val::I(0)),
            Intr::Ident => one(a[0]),
            Intr::Zero => one(Val::I(0)),
            Intr::F1(k) => {
                let mut v = Vec::new();
                for o in a {
                    let x = self.concretize(st, o.clone())?;
                    v.push(if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 });
                }
                let r = match k {
                    0 => v[0].sqrt(),
                    1 => v[0].floor(),
                    2 => v[0].ceil(),
                    3 => v[0].trunc(),
                    4 => v[0].round(),
                    5 => v[0].round_ties_even(),
                    6 => v[0].copysign(v[1]),
                    7 => v[0].min(v[1]),
                    8 => v[0].max(v[1]),
                    _ => return Err(Stop::Err("unsupported: float intrinsic".into())),
                };
                one(Val::I(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            Intr::Fabs => {
                let x = self.concretize(st, a[0])?;
                one(Val::I(if w == 64 { x & !(1 << 63) } else { x & !(1 << 31) }))
            }
        }
    }

    fn string(&mut self, st: &mut State, p: Val, n: Val) -> Res<String> {
        let p = self.concretize(st, p)?;
        let n = self.concretize(st, n)?;
        let b = st.mem.bytes(self.m, p, n as usize).ok_or_else(|| Stop::Err("label pointer".into()))?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    fn label(&self, l: &str, i: usize) {
        let mut m = self.sh.labels.lock().unwrap();
        m.entry(l.to_string()).or_default()[i] += 1;
    }

    fn builtin(&mut self, st: &mut State, b: Builtin, f: u32, a: &[Val]) -> Res<Val> {
        let m = self.m;
        match b {
            Builtin::None => unreachable!(),
            Builtin::Malloc => {
                let n = self.concretize(st, a[0])?;
                self.alloc_size(n)?;
                Ok(Val::I(st.mem.alloc(n as usize)))
            }
            Builtin::Calloc => {
                let n = self.concretize(st, a[0])? * self.concretize(st, a[1])?;
                self.alloc_size(n)?;
                Ok(Val::I(st.mem.alloc(n as usize)))
            }
            Builtin::Realloc => {
                let n = self.concretize(st, a[1])?;
                let p = self.concretize(st, a[0])?;
                self.alloc_size(n)?;
                if p == 0 {
                    return Ok(Val::I(st.mem.alloc(n as usize)));
                }
                Ok(Val::I(st.mem.realloc(m, p, n as usize)?))
            }
            Builtin::Free => {
                let p = self.concretize(st, a[0])?;
                if p != 0 {
                    st.mem.free(p)?;
                }
                Ok(Val::I(0))
            }
            Builtin::PosixMemalign => {
                let out = self.concretize(st, a[0])?;
                let n = self.concretize(st, a[2])?;
                self.alloc_size(n)?;
                let p = st.mem.alloc(n as usize);
                st.mem.store(m, out, 64, Val::I(p))?;
                Ok(Val::I(0))
            }
            Builtin::Memcmp | Builtin::Bcmp => {
                let n = self.concretize(st, a[2])?;
                if n == 0 {
                    return Ok(Val::I(0));
                }
                let (x, y) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?);
                {
                    let (dx, sx) = st.mem.get(m, x).ok_or_else(|| Stop::Err(format!("memcmp of {x:#x}")))?;
                    let (dy, sy) = st.mem.get(m, y).ok_or_else(|| Stop::Err(format!("memcmp of {y:#x}")))?;
                    let (ox, oy, n) = (x as u32 as usize, y as u32 as usize, n as usize);
                    if ox + n > dx.len() || oy + n > dy.len() {
                        return Err(Stop::Err("memcmp out of bounds".into()));
                    }
                    let any = sx.is_some_and(|s| s[ox..ox + n].iter().any(|b| b.is_some()))
                        || sy.is_some_and(|s| s[oy..oy + n].iter().any(|b| b.is_some()));
                    if !any {
                        let r = match dx[ox..ox + n].cmp(&dy[oy..oy + n]) {
                            std::cmp::Ordering::Less => -1i32,
                            std::cmp::Ordering::Equal => 0,
                            std::cmp::Ordering::Greater => 1,
                        };
                        return Ok(Val::I(r as u32 as u64));
                    }
                }
                let mut pairs = Vec::new();
                for i in 0..n {
                    let bx = to_node(st.mem.load_byte(m, x + i)?, 8);
                    let by = to_node(st.mem.load_byte(m, y + i)?, 8);
                    pairs.push((bx, by));
                }
                if b == Builtin::Bcmp {
                    let mut eq = konst(1, 1);
                    for (x, y) in pairs {
                        eq = bin(Op::And, eq, bin(Op::Eq, x, y));
                    }
                    return Ok(to_val(zext(not1(eq), 32)));
                }
                let mut acc = konst(32, 0);
                for (x, y) in pairs.into_iter().rev() {
                    let eq = bin(Op::Eq, x, y);
                    let lt = bin(Op::Ult, x, y);
                    acc = ite(eq, acc, ite(lt, konst(32, 0xffff_ffff), konst(32, 1)));
                }
                Ok(to_val(acc))
            }
            Builtin::Memcpy => {
                let n = self.concretize(st, a[2])?;
                let d = self.concretize(st, a[0])?;
                let s = self.concretize(st, a[1])?;
                st.mem.copy(m, d, s, n as usize)?;
                Ok(Val::I(d))
            }
            Builtin::Strlen => {
                let p = self.concretize(st, a[0])?;
                let mut n = 0;
                loop {
                    let v = st.mem.load_byte(m, p + n)?;
                    if self.concretize(st, v)? == 0 {
                        return Ok(Val::I(n));
                    }
                    n += 1;
                }
            }
            Builtin::RetZero => Ok(Val::I(0)),
            Builtin::RetMinus1 => {
                st.mem.store(m, self.sh.errno_addr, 32, Val::I(2))?;
                Ok(Val::I(u32::MAX as u64))
            }
            Builtin::Write => Ok(a[2]),
            Builtin::Writev => {
                let (v, n) = (self.concretize(st, a[1])?, self.concretize(st, a[2])?);
                let mut len = 0;
                for i in 0..n {
                    let l = st.mem.load(m, v + 16 * i + 8, 64)?;
                    len += self.concretize(st, l)?;
                }
                Ok(Val::I(len))
            }
            Builtin::Clock => {
                // time stands still
                let p = self.concretize(st, a[1])?;
                st.mem.store(m, p, 64, Val::I(1_700_000_000))?;
                st.mem.store(m, p + 8, 64, Val::I(0))?;
                Ok(Val::I(0))
            }
            Builtin::Sysconf => {
                let k = self.concretize(st, a[0])?;
                Ok(Val::I(if k as u32 == 30 { 4096 } else { 1 }))
            }
            Builtin::RetOne => Ok(Val::I(1)),
            Builtin::Errno => Ok(Val::I(self.sh.errno_addr)),
            Builtin::Syscall => {
                // Only getrandom is expected: the buffer stays as it is, all bytes "read".
                let off = if m.funcs[f as usize].name == "syscall" { 1 } else { 0 };
                if off == 1 {
                    let nr = self.concretize(st, a[0])?;
                    // open and statx, for a file that does not exist; close
                    if nr == 2 || nr == 332 {
                        st.mem.store(m, self.sh.errno_addr, 32, Val::I(2))?;
                        return Ok(Val::I(u64::MAX));
                    }
                    // close, futex, sched_yield
                    if nr == 3 || nr == 202 || nr == 24 {
                        return Ok(Val::I(0));
                    }
                    if nr != 318 {
                        return Err(Stop::Err(format!("system call {nr}")));
                    }
                }
                let buf = self.concretize(st, a[off])?;
                let n = self.concretize(st, a[off + 1])?;
                st.mem.fill(m, buf, Val::I(7), n as usize)?;
                Ok(Val::I(n))
            }
            Builtin::Abort => Err(Stop::Violation("abort".into(), "abort called".into())),
            Builtin::Panic => {
                let name = m.funcs[f as usize].name;
                Err(Stop::Violation("panic".into(), format!("panic ({name})")))
            }
            Builtin::Unknown => Err(Stop::Err(format!("call of external function {}", m.funcs[f as usize].name))),
            Builtin::KBits => {
                let w = self.concretize(st, a[0])? as u32;
                let name = self.string(st, a[1], a[2])?;
                let i = st.widths.len();
                if i >= 128 {
                    return Err(Stop::Err("more than 128 symbolic variables".into()));
                }
                st.widths.push(w as u16);
                st.names.push(name);
                if st.model.len() <= i {
                    st.model.resize(i + 1, 0);
                }
                st.model[i] = 0;
                Ok(to_val(zext(var(w, i as u32), 64)))
            }
            Builtin::KAssume => {
                let c = extract(to_node(a[0], arg_w(a[0], 64)), 0, 1);
                if c.is_const() {
                    return if c.c == 1 { Ok(Val::I(0)) } else { Err(Stop::Infeasible) };
                }
                if let Some(b) = st.known.get(&c.id) {
                    return if *b { Ok(Val::I(0)) } else { Err(Stop::Infeasible) };
                }
                if self.eval(st, c) == 1 {
                    self.add(st, c);
                    return Ok(Val::I(0));
                }
                match self.feasible(st, c)? {
                    Some(mo) => {
                        st.model = mo;
                        self.add(st, c);
                        Ok(Val::I(0))
                    }
                    None => Err(Stop::Infeasible),
                }
            }
            Builtin::KCheck => {
                let label = self.string(st, a[1], a[2])?;
                let c = extract(to_node(a[0], arg_w(a[0], 64)), 0, 1);
                if c.is_const() {
                    self.label(&label, 0);
                    if c.c == 0 {
                        return Err(Stop::Violation(label, "assertion is false on this path".into()));
                    }
                    return Ok(Val::I(0));
                }
                self.label(&label, 1);
                let bad = not1(c);
                match self.feasible(st, bad)? {
                    Some(mo) => {
                        self.label(&label, 2);
                        let d = format!("assertion can be false\n{}", self.backtrace(st));
                        self.violation(st, label, d, Some(&mo));
                        // Continue on the side where it holds, if any.
                        match self.feasible(st, c)? {
                            Some(mo) => {
                                st.model = mo;
                                self.add(st, c);
                                Ok(Val::I(0))
                            }
                            None => Err(Stop::Infeasible),
                        }
                    }
                    None => {
                        st.known.insert(c.id, true);
                        st.known.insert(bad.id, false);
                        Ok(Val::I(0))
                    }
                }
            }
            Builtin::KReach => {
                let label = self.string(st, a[0], a[1])?;
                self.label(&label, 0);
                Ok(Val::I(0))
            }
            Builtin::KEmit => {
                st.trace.push((a[0], 64));
                Ok(Val::I(0))
            }
            Builtin::KConcretize => Ok(Val::I(self.concretize(st, a[0])?)),
            Builtin::KIsSym => Ok(Val::I(matches!(a[0], Val::S(_)) as u64)),
        }
    }
    fn alloc_size(&self, n: u64) -> Res<()> {
        if n > 1 << 26 {
            return Err(Stop::Err(format!("allocation of {n} bytes")));
        }
        Ok(())
    }
}

fn arg_w(v: Val, d: u32) -> u32 {
    match v {
        Val::I(_) => d,
        Val::S(n) => n.w as u32,
    }
}
fn zext_to(n: N, w: u32) -> N {
    zext(n, w)
}

/// v ∈ xs as a disjunction of ranges.
fn ranges(v: N, w: u32, xs: &[u128]) -> N {
    let mut acc = konst(1, 0);
    let mut i = 0;
    while i < xs.len() {
        let lo = xs[i];
        let mut hi = lo;
        while i + 1 < xs.len() && xs[i + 1] == hi + 1 {
            i += 1;
            hi = xs[i];
        }
        let c = if lo == hi {
            bin(Op::Eq, v, konst(w, lo))
        } else {
            bin(Op::And, bin(Op::Ule, konst(w, lo), v), bin(Op::Ule, v, konst(w, hi)))
        };
        acc = bin(Op::Or, acc, c);
        i += 1;
    }
    acc
}

fn icmp(p: Pred, a: N, b: N) -> N {
    match p {
        Pred::Eq => bin(Op::Eq, a, b),
        Pred::Ne => not1(bin(Op::Eq, a, b)),
        Pred::Ult => bin(Op::Ult, a, b),
        Pred::Ule => bin(Op::Ule, a, b),
        Pred::Ugt => bin(Op::Ult, b, a),
        Pred::Uge => bin(Op::Ule, b, a),
        Pred::Slt => bin(Op::Slt, a, b),
        Pred::Sle => bin(Op::Sle, a, b),
        Pred::Sgt => bin(Op::Slt, b, a),
        Pred::Sge => bin(Op::Sle, b, a),
    }
}

fn gep_add(x: Val, i: Val, iw: u32, scale: i64) -> Val {
    match (x, i) {
        (Val::I(x), Val::I(i)) => Val::I(x.wrapping_add((sext64(i, iw)).wrapping_mul(scale) as u64)),
        (x, i) => {
            let i = sext(to_node(i, iw), 64);
            let o = bin(Op::Mul, i, konst(64, scale as u64 as u128));
            to_val(bin(Op::Add, to_node(x, 64), o))
        }
    }
}

fn bitcast(src: &[Val], sw: u32, dn: usize, dw: u32) -> Vec<Val> {
    let mut out = Vec::with_capacity(dn);
    if dw >= sw {
        let k = (dw / sw) as usize;
        for j in 0..dn {
            if dw <= 64 && src[j * k..(j + 1) * k].iter().all(|v| matches!(v, Val::I(_))) {
                let mut x = 0u64;
                for i in (0..k).rev() {
                    if let Val::I(v) = src[j * k + i] {
                        x = if sw == 64 { v } else { (x << sw) | v };
                    }
                }
                out.push(Val::I(x));
                continue;
            }
            let mut acc = to_node(src[j * k], sw);
            for i in 1..k {
                acc = concat(to_node(src[j * k + i], sw), acc);
            }
            out.push(to_val(acc));
        }
    } else {
        let k = (sw / dw) as usize;
        for j in 0..dn {
            let s = to_node(src[j / k], sw);
            out.push(to_val(extract(s, (j % k) as u32 * dw, dw)));
        }
    }
    out
}
