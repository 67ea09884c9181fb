//! Thin FFI layer over the system's libz3: QF_BV satisfiability with models.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, sort: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, sort: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, sort: Sort) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, l: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_: Ctx, code: c_uint) {
    eprintln!("krsym: z3 API error {code}");
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    ctx: Ctx,
    solver: Solver,
    bv: FxMap<u32, Ast>,
    bo: FxMap<u32, Ast>,
    vars: FxMap<u32, N>,
    checks_in_ctx: u32,
    timeout_ms: u32,
}

pub enum Answer {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

fn is_bool_op(n: N) -> bool {
    n.w == 1
        && matches!(
            n.op,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const
        )
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        let (ctx, solver) = Self::mk(timeout_ms);
        Z3 { ctx, solver, bv: Default::default(), bo: Default::default(), vars: Default::default(), checks_in_ctx: 0, timeout_ms }
    }
    fn mk(timeout_ms: u32) -> (Ctx, Solver) {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            (ctx, solver)
        }
    }
    fn recycle(&mut self) {
        unsafe { Z3_del_context(self.ctx) };
        let (c, s) = Self::mk(self.timeout_ms);
        self.ctx = c;
        self.solver = s;
        self.bv.clear();
        self.bo.clear();
        self.vars.clear();
        self.checks_in_ctx = 0;
    }

    fn to_bool(&mut self, n: N) -> Ast {
        debug_assert_eq!(n.w, 1);
        if let Some(a) = self.bo.get(&n.id) {
            return *a;
        }
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.c == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or if n.w == 1 => {
                    let a = [self.to_bool(n.kid(0)), self.to_bool(n.kid(1))];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, a.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, a.as_ptr())
                    }
                }
                Op::Xor => {
                    if n.kid(1).is_const() && n.kid(1).c == 1 {
                        let a = self.to_bool(n.kid(0));
                        Z3_mk_not(c, a)
                    } else {
                        let (a, b) = (self.to_bool(n.kid(0)), self.to_bool(n.kid(1)));
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (i, a, b) = (self.to_bool(n.kid(0)), self.to_bool(n.kid(1)), self.to_bool(n.kid(2)));
                    Z3_mk_ite(c, i, a, b)
                }
                Op::Eq if n.kid(0).w == 1 => {
                    let (a, b) = (self.to_bool(n.kid(0)), self.to_bool(n.kid(1)));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.to_bv(n.kid(0)), self.to_bv(n.kid(1)));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.to_bv(n);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bo.insert(n.id, r);
        r
    }

    fn to_bv(&mut self, n: N) -> Ast {
        if let Some(a) = self.bv.get(&n.id) {
            return *a;
        }
        let c = self.ctx;
        let r = unsafe {
            if is_bool_op(n) && n.op != Op::Const {
                let b = self.to_bool(n);
                let s = Z3_mk_bv_sort(c, 1);
                Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
            } else {
                match n.op {
                    Op::Const => {
                        let s = Z3_mk_bv_sort(c, n.w as c_uint);
                        if n.c <= u64::MAX as u128 {
                            Z3_mk_unsigned_int64(c, n.c as u64, s)
                        } else {
                            let t = CString::new(n.c.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                    Op::Var => {
                        let t = CString::new(format!("v{}_{}", n.c, n.w)).unwrap();
                        self.vars.insert(n.id, n);
                        Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), Z3_mk_bv_sort(c, n.w as c_uint))
                    }
                    Op::Ite => {
                        let (i, a, b) = (self.to_bool(n.kid(0)), self.to_bv(n.kid(1)), self.to_bv(n.kid(2)));
                        Z3_mk_ite(c, i, a, b)
                    }
                    Op::Extract => {
                        let a = self.to_bv(n.kid(0));
                        Z3_mk_extract(c, (n.lo + n.w - 1) as c_uint, n.lo as c_uint, a)
                    }
                    Op::ZExt => {
                        let a = self.to_bv(n.kid(0));
                        Z3_mk_zero_ext(c, (n.w - n.kid(0).w) as c_uint, a)
                    }
                    Op::SExt => {
                        let a = self.to_bv(n.kid(0));
                        Z3_mk_sign_ext(c, (n.w - n.kid(0).w) as c_uint, a)
                    }
                    op => {
                        let (a, b) = (self.to_bv(n.kid(0)), self.to_bv(n.kid(1)));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        self.bv.insert(n.id, r);
        r
    }

    /// Is the conjunction satisfiable? `widths` gives the width of each variable of this path.
    pub fn check(&mut self, cs: &[N], widths: &[u16], smt: Option<&mut String>) -> Answer {
        self.checks_in_ctx += 1;
        if self.checks_in_ctx > 4000 {
            self.recycle();
        }
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for n in cs {
                let b = self.to_bool(n);
                Z3_solver_assert(self.ctx, self.solver, b);
            }
            if let Some(out) = smt {
                *out = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = Vec::new();
                    let vars: Vec<N> = self.vars.values().copied().filter(|v| widths.get(v.c as usize) == Some(&v.w)).collect();
                    let mut support = 0u128;
                    for n in cs {
                        support |= n.vars;
                    }
                    for v in vars {
                        if v.vars & support == 0 {
                            continue;
                        }
                        let a = self.bv[&v.id];
                        let mut o: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut o) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_string_lossy();
                            out.push((v.c as u32, s.parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Answer::Sat(out)
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            ans
        }
    }
}
#[allow(dead_code)]
fn unused(c: *mut c_void) {
    unsafe { Z3_set_param_value(c, std::ptr::null(), std::ptr::null()) }
}
