//! Minimal FFI to the system libz3 and the translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_error(_: P, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,   // as bit-vector
    bo: Vec<P>,   // width-1 as Bool
    vars: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub slowest: f64,
}

pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn version() -> String {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
        format!("{a}.{b}.{c}")
    }
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = if std::env::var("SXE_SOLVER").as_deref() != Ok("simple") {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let _ = Z3_mk_int_symbol;
            Z3 { c, s, bv: vec![], bo: vec![], vars: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, slowest: 0.0 }
        }
    }
    fn var(&mut self, i: usize) -> P {
        while self.vars.len() <= i {
            let n = CString::new(format!("b{}", self.vars.len())).unwrap();
            let v = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8)) };
            self.vars.push(v);
        }
        self.vars[i]
    }
    fn lit(&mut self, w: u32, k: u128) -> P {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if k >> 64 == 0 {
                Z3_mk_unsigned_int64(self.c, k as u64, t)
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            }
        }
    }
    pub fn boolean(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if self.bo.len() <= i {
            self.bo.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.bo[i].is_null() {
            return self.bo[i];
        }
        let n = ar.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Eq if ar.w(n.a) == 1 => {
                    let (x, y) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Eq => {
                    let (x, y) = (self.term(ar, n.a), self.term(ar, n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.term(ar, n.a), self.term(ar, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::And => {
                    let a = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor if ar.as_const(n.b) == Some(1) => {
                    let x = self.boolean(ar, n.a);
                    Z3_mk_not(c, x)
                }
                Op::Xor => {
                    let (x, y) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                    Z3_mk_xor(c, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let t = self.term(ar, e);
                    let one = self.lit(1, 1);
                    Z3_mk_eq(c, t, one)
                }
            }
        };
        self.bo[i] = r;
        r
    }
    fn term(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if self.bv.len() <= i {
            self.bv.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let n = ar.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.lit(n.w as u32, n.k),
                Op::Var => self.var(n.k as usize),
                Op::Extract => {
                    let x = self.term(ar, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, x)
                }
                Op::ZExt => {
                    let iw = ar.w(n.a);
                    if iw == 1 {
                        let x = self.boolean(ar, n.a);
                        let (o, z) = (self.lit(n.w as u32, 1), self.lit(n.w as u32, 0));
                        Z3_mk_ite(c, x, o, z)
                    } else {
                        let x = self.term(ar, n.a);
                        Z3_mk_zero_ext(c, n.w as u32 - iw, x)
                    }
                }
                Op::SExt => {
                    let x = self.term(ar, n.a);
                    Z3_mk_sign_ext(c, n.w as u32 - ar.w(n.a), x)
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(ar, n.a), self.term(ar, n.b), self.term(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(ar, e);
                    let (o, z) = (self.lit(1, 1), self.lit(1, 0));
                    Z3_mk_ite(c, b, o, z)
                }
                _ => {
                    let (x, y) = (self.term(ar, n.a), self.term(ar, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[i] = r;
        r
    }
    /// Is the conjunction satisfiable?  `supp` lists the variables whose model values are wanted.
    pub fn check(&mut self, ar: &Arena, cs: &[E], supp: u128) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let b = self.boolean(ar, e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::new();
                    for i in 0..128 {
                        if supp >> i & 1 == 1 {
                            let v = self.var(i);
                            let mut o: P = std::ptr::null_mut();
                            let mut k = 0u64;
                            if Z3_model_eval(self.c, m, v, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut k) {
                                out.push((i, k as u8));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        r
    }
}
