//! Thin binding to libz3 (C API) and the translation of expressions.

use crate::expr::{Arena, Op, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Params = *mut c_void;
type Symbol = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Symbol) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Symbol, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, complete: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Symbol;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Symbol;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Symbol, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
}

extern "C" fn on_error(_: Ctx, code: c_uint) {
    eprintln!("sx: z3 error {code}");
    std::process::abort();
}

pub enum Answer {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    cache: HashMap<E, Ast>,
    bool_sort: Sort,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            for (k, v) in [("model", "true"), ("proof", "false")] {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            }
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            let bool_sort = Z3_mk_bool_sort(c);
            Z3_inc_ref(c, bool_sort);
            Z3 { c, s, cache: HashMap::new(), bool_sort }
        }
    }

    fn tr(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.cache.get(&e) {
            return a;
        }
        let n = ar.n(e);
        let c = self.c;
        let boolean = n.w == 1;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = ar.consts[n.a as usize];
                    if boolean {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let t = Z3_mk_bv_sort(c, n.w as u32);
                        if let Ok(v) = u64::try_from(v) {
                            Z3_mk_unsigned_int64(c, v, t)
                        } else {
                            let s = CString::new(v.to_string()).unwrap();
                            Z3_mk_numeral(c, s.as_ptr(), t)
                        }
                    }
                }
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.a as c_int);
                    if boolean {
                        Z3_mk_const(c, s, self.bool_sort)
                    } else {
                        Z3_mk_const(c, s, Z3_mk_bv_sort(c, n.w as u32))
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::ZExt | Op::SExt | Op::Extract => {
                    let x = self.tr(ar, n.a);
                    let aw = ar.w(n.a) as u32;
                    let x = if aw == 1 { self.b2v(x) } else { x };
                    match n.op {
                        Op::ZExt => Z3_mk_zero_ext(c, n.w as u32 - aw, x),
                        Op::SExt => Z3_mk_sign_ext(c, n.w as u32 - aw, x),
                        _ => {
                            let r = Z3_mk_extract(c, n.c + n.w as u32 - 1, n.c, x);
                            if boolean {
                                self.v2b(r)
                            } else {
                                r
                            }
                        }
                    }
                }
                Op::Concat => {
                    let (mut x, mut y) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    if ar.w(n.a) == 1 {
                        x = self.b2v(x);
                    }
                    if ar.w(n.b) == 1 {
                        y = self.b2v(y);
                    }
                    Z3_mk_concat(c, x, y)
                }
                op => {
                    let (x, y) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    let ab = ar.w(n.a) == 1;
                    match op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::And if ab => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or if ab => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        Op::Xor if ab => {
                            if ar.is_const(n.b) == Some(1) {
                                Z3_mk_not(c, x)
                            } else {
                                Z3_mk_xor(c, x, y)
                            }
                        }
                        _ => {
                            let (x, y) = if ab { (self.b2v(x), self.b2v(y)) } else { (x, y) };
                            let r = match op {
                                Op::Add => Z3_mk_bvadd(c, x, y),
                                Op::Sub => Z3_mk_bvsub(c, x, y),
                                Op::Mul => Z3_mk_bvmul(c, x, y),
                                Op::UDiv => Z3_mk_bvudiv(c, x, y),
                                Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                                Op::URem => Z3_mk_bvurem(c, x, y),
                                Op::SRem => Z3_mk_bvsrem(c, x, y),
                                Op::And => Z3_mk_bvand(c, x, y),
                                Op::Or => Z3_mk_bvor(c, x, y),
                                Op::Xor => Z3_mk_bvxor(c, x, y),
                                Op::Shl => Z3_mk_bvshl(c, x, y),
                                Op::LShr => Z3_mk_bvlshr(c, x, y),
                                Op::AShr => Z3_mk_bvashr(c, x, y),
                                Op::Ult => Z3_mk_bvult(c, x, y),
                                Op::Ule => Z3_mk_bvule(c, x, y),
                                Op::Slt => Z3_mk_bvslt(c, x, y),
                                Op::Sle => Z3_mk_bvsle(c, x, y),
                                _ => unreachable!(),
                            };
                            let cmp = matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle);
                            if ab && !cmp {
                                self.v2b(r)
                            } else {
                                r
                            }
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.cache.insert(e, r);
        r
    }
    unsafe fn b2v(&self, x: Ast) -> Ast {
        let t = Z3_mk_bv_sort(self.c, 1);
        Z3_mk_ite(
            self.c,
            x,
            Z3_mk_unsigned_int64(self.c, 1, t),
            Z3_mk_unsigned_int64(self.c, 0, t),
        )
    }
    unsafe fn v2b(&self, x: Ast) -> Ast {
        let t = Z3_mk_bv_sort(self.c, 1);
        Z3_mk_eq(self.c, x, Z3_mk_unsigned_int64(self.c, 1, t))
    }

    /// Is the conjunction satisfiable? Returns values for `vars`.
    pub fn check(&mut self, ar: &Arena, cs: &[E], vars: &[u32]) -> Answer {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let a = self.tr(ar, e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let mut r = Z3_solver_check(self.c, self.s);
            let mut solver = self.s;
            let mut fresh = false;
            if r == 0 {
                // Second attempt: the QF_BV tactic (full bit-blasting) with a larger resource limit; a time limit would use threads, which do not survive fork().
                let name = CString::new("QF_BV").unwrap();
                solver = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, name.as_ptr()));
                Z3_solver_inc_ref(self.c, solver);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 400_000_000);
                Z3_solver_set_params(self.c, solver, p);
                fresh = true;
                for &e in cs {
                    let a = self.tr(ar, e);
                    Z3_solver_assert(self.c, solver, a);
                }
                r = Z3_solver_check(self.c, solver);
            }
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, solver);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::with_capacity(vars.len());
                    for &v in vars {
                        let w = ar.var_width[v as usize];
                        let s = Z3_mk_int_symbol(self.c, v as c_int);
                        let t = if w == 1 { self.bool_sort } else { Z3_mk_bv_sort(self.c, w as u32) };
                        let x = Z3_mk_const(self.c, s, t);
                        Z3_inc_ref(self.c, x);
                        let mut o: Ast = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, x, true, &mut o);
                        assert!(ok);
                        Z3_inc_ref(self.c, o);
                        let mut val = 0u64;
                        if w == 1 {
                            val = (Z3_get_bool_value(self.c, o) == 1) as u64;
                        } else {
                            assert!(Z3_get_numeral_uint64(self.c, o, &mut val));
                        }
                        Z3_dec_ref(self.c, o);
                        Z3_dec_ref(self.c, x);
                        out.push((v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Answer::Sat(out)
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown,
            };
            if fresh {
                Z3_solver_dec_ref(self.c, solver);
            }
            Z3_solver_pop(self.c, self.s, 1);
            ans
        }
    }

    /// SMT-LIB2 text of a query (for cross-checking with another solver).
    pub fn smt2(&mut self, ar: &Arena, cs: &[E]) -> String {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let a = self.tr(ar, e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
            Z3_solver_pop(self.c, self.s, 1);
            s
        }
    }
}
