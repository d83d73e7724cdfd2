//! Minimal hand-declared FFI to libz3 and translation of expressions.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("symex: z3 error {}", e);
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<u64>), // values of the variables asked for, in order
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    cache: FMap<Id, P>,
    timeout: u32,
    pub made: usize,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, cache: Default::default(), timeout: timeout_ms, made: 0 }
        }
    }
    pub fn reset(&mut self) {
        unsafe { Z3_del_context(self.c) };
        let n = Z3::new(self.timeout);
        let old = std::mem::replace(self, n);
        std::mem::forget(old);
    }
    fn tr(&mut self, e: &Exprs, i: Id) -> P {
        if let Some(p) = self.cache.get(&i) {
            return *p;
        }
        let n = e.n(i);
        self.made += 1;
        unsafe {
            let c = self.c;
            let b1 = |c: P, x: P| {
                // bool -> bv1
                let s = Z3_mk_bv_sort(c, 1);
                Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
            };
            let r = match n.op {
                Op::Const => Z3_mk_unsigned_int64(c, n.c, Z3_mk_bv_sort(c, n.w as u32)),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, n.w as u32)),
                Op::Not => {
                    let a = self.tr(e, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Zext => {
                    let a = self.tr(e, n.a);
                    Z3_mk_zero_ext(c, (n.w - e.w(n.a)) as u32, a)
                }
                Op::Sext => {
                    let a = self.tr(e, n.a);
                    Z3_mk_sign_ext(c, (n.w - e.w(n.a)) as u32, a)
                }
                Op::Extract => {
                    let a = self.tr(e, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::Ite => {
                    let a = self.trb(e, n.a);
                    let x = self.tr(e, n.b);
                    let y = self.tr(e, n.c as Id);
                    Z3_mk_ite(c, a, x, y)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulO | Op::SMulO | Op::SAddO | Op::SSubO => {
                    let p = self.trb(e, i);
                    b1(c, p)
                }
                _ => {
                    let a = self.tr(e, n.a);
                    let b = self.tr(e, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.cache.insert(i, r);
            r
        }
    }
    /// as a Z3 boolean
    fn trb(&mut self, e: &Exprs, i: Id) -> P {
        let n = e.n(i);
        unsafe {
            let c = self.c;
            match n.op {
                Op::Not if n.w == 1 => {
                    let a = self.trb(e, n.a);
                    Z3_mk_not(c, a)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulO | Op::SMulO | Op::SAddO | Op::SSubO => {
                    let a = self.tr(e, n.a);
                    let b = self.tr(e, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        Op::UMulO => Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, false)),
                        Op::SMulO => {
                            let x = Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, true));
                            let y = Z3_mk_not(c, Z3_mk_bvmul_no_underflow(c, a, b));
                            Z3_mk_ite(c, x, x, y)
                        }
                        Op::SAddO | Op::SSubO => {
                            // widen by one bit and compare
                            let w = e.w(n.a) as u32;
                            let ax = Z3_mk_sign_ext(c, 1, a);
                            let bx = Z3_mk_sign_ext(c, 1, b);
                            let (s, t) = if n.op == Op::SAddO {
                                (Z3_mk_bvadd(c, ax, bx), Z3_mk_bvadd(c, a, b))
                            } else {
                                (Z3_mk_bvsub(c, ax, bx), Z3_mk_bvsub(c, a, b))
                            };
                            let _ = w;
                            Z3_mk_not(c, Z3_mk_eq(c, s, Z3_mk_sign_ext(c, 1, t)))
                        }
                        _ => unreachable!(),
                    }
                }
                _ => {
                    let a = self.tr(e, i);
                    Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                }
            }
        }
    }
    pub fn check(&mut self, e: &Exprs, cs: &[Id], vars: &[(u32, Id)]) -> Res {
        unsafe {
            for i in cs {
                let a = self.trb(e, *i);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let mdl = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, mdl);
                    let mut vals = Vec::with_capacity(vars.len());
                    for (_, vid) in vars {
                        let t = self.tr(e, *vid);
                        let mut v: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, mdl, t, true, &mut v) {
                            Z3_get_numeral_uint64(self.c, v, &mut u);
                        }
                        vals.push(u);
                    }
                    Z3_model_dec_ref(self.c, mdl);
                    Res::Sat(vals)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let err = Z3_get_error_code(self.c);
            Z3_solver_reset(self.c, self.s);
            if err != 0 {
                return Res::Unknown;
            }
            out
        }
    }
}
