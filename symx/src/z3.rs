//! Minimal FFI to libz3 and translation of expressions to z3 terms.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_interrupt(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
}

extern "C" fn on_err(_c: P, _e: c_int) {}

pub struct Z3 {
    c: P,
    s: P,
    sbv: P,
    sfp: P,
    ast: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    used: u64,
}

/// the contexts of the workers, so that a watchdog can interrupt a query
pub static SLOTS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
pub fn interrupt_all() {
    for c in SLOTS.lock().unwrap().iter() { unsafe { Z3_interrupt(*c as P) } }
}

pub enum Res { Sat(Vec<(usize, u8)>), Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            SLOTS.lock().unwrap().push(c as usize);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let _ = Z3_mk_bvule as usize;
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let sfp = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, sfp);
            Z3_solver_set_params(c, sfp, p);
            Z3 { c, s, sbv: s, sfp, ast: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: Default::default(), used: 0 }
        }
    }
    pub fn reset(&mut self, timeout_ms: u32) {
        SLOTS.lock().unwrap().retain(|x| *x != self.c as usize);
        unsafe { Z3_del_context(self.c) };
        let n = Z3::new(timeout_ms);
        self.c = n.c;
        self.s = n.s;
        self.sbv = n.sbv;
        self.sfp = n.sfp;
        std::mem::forget(n);
        self.ast.clear();
        self.used = 0;
    }
    fn bv(&self, w: u8) -> P { unsafe { Z3_mk_bv_sort(self.c, w as u32) } }
    fn num(&self, w: u8, v: u128) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, self.bv(w)) } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.bv(w))
            }
        }
    }
    fn b2v(&self, b: P) -> P { unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(1, 0)) } }
    fn var(&self, i: u64) -> P { unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), self.bv(8)) } }
    fn fp(&self, w: u64, x: P) -> P {
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, x, if w == 32 { Z3_mk_fpa_sort_single(self.c) } else { Z3_mk_fpa_sort_double(self.c) }) }
    }
    fn mux(&self, t: &[u64], v: P, bit: u32, w: u8) -> P {
        if t.iter().all(|x| *x == t[0]) { return self.num(w, t[0] as u128); }
        // t indexed by low bits.. split on the highest remaining bit
        let h = t.len() / 2;
        unsafe {
            let b = Z3_mk_eq(self.c, Z3_mk_extract(self.c, bit, bit, v), self.num(1, 1));
            let hi = self.mux(&t[h..], v, bit.wrapping_sub(1), w);
            let lo = self.mux(&t[..h], v, bit.wrapping_sub(1), w);
            Z3_mk_ite(self.c, b, hi, lo)
        }
    }
    pub fn ast(&mut self, ar: &Arena, e: E) -> P {
        if self.ast.len() < ar.len() { self.ast.resize(ar.len(), std::ptr::null_mut()); }
        if !self.ast[e as usize].is_null() { return self.ast[e as usize]; }
        let n = ar.n(e);
        let r = unsafe {
            let c = self.c;
            match n.op {
                Op::Const => self.num(n.w, ar.cval(e).unwrap()),
                Op::Sym => self.var(n.k),
                Op::Tbl => {
                    let v = self.ast(ar, n.a);
                    self.mux(&ar.tbls[n.k as usize][..], v, 7, n.w)
                }
                Op::Ite => {
                    let x = self.ast(ar, n.a);
                    let y = self.ast(ar, n.b);
                    let z = self.ast(ar, n.c);
                    Z3_mk_ite(c, Z3_mk_eq(c, x, self.num(1, 1)), y, z)
                }
                Op::Extract => { let x = self.ast(ar, n.a); Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, x) }
                Op::ZExt => { let x = self.ast(ar, n.a); Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as u32, x) }
                Op::SExt => { let x = self.ast(ar, n.a); Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, x) }
                Op::FIsNan => { let x = self.ast(ar, n.a); self.b2v(Z3_mk_fpa_is_nan(c, self.fp(n.k & 255, x))) }
                Op::FToS => { let x = self.ast(ar, n.a); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), self.fp(n.k & 255, x), n.w as u32) }
                Op::FToU => { let x = self.ast(ar, n.a); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), self.fp(n.k & 255, x), n.w as u32) }
                Op::FSToF | Op::FUToF => {
                    let x = self.ast(ar, n.a);
                    let so = if n.w == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                    let r = if n.op == Op::FSToF { Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, so) } else { Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, so) };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FToF => {
                    let x = self.ast(ar, n.a);
                    let so = if n.w == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.fp(n.k & 255, x), so))
                }
                Op::FRnd => {
                    let x = self.ast(ar, n.a);
                    let rm = match n.k >> 8 { 0 => Z3_mk_fpa_rtz(c), 1 => Z3_mk_fpa_rtn(c), 2 => Z3_mk_fpa_rtp(c), 3 => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, self.fp(n.k & 255, x)))
                }
                _ => {
                    let x = self.ast(ar, n.a);
                    let y = self.ast(ar, n.b);
                    let fw = n.k & 255;
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Eq => self.b2v(Z3_mk_eq(c, x, y)),
                        Op::Ult => self.b2v(Z3_mk_bvult(c, x, y)),
                        Op::Slt => self.b2v(Z3_mk_bvslt(c, x, y)),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), self.fp(fw, x), self.fp(fw, y))),
                        Op::FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), self.fp(fw, x), self.fp(fw, y))),
                        Op::FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), self.fp(fw, x), self.fp(fw, y))),
                        Op::FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), self.fp(fw, x), self.fp(fw, y))),
                        Op::FEq => self.b2v(Z3_mk_fpa_eq(c, self.fp(fw, x), self.fp(fw, y))),
                        Op::FLt => self.b2v(Z3_mk_fpa_lt(c, self.fp(fw, x), self.fp(fw, y))),
                        Op::FLe => self.b2v(Z3_mk_fpa_leq(c, self.fp(fw, x), self.fp(fw, y))),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast[e as usize] = r;
        r
    }
    fn dom_ast(&self, v: usize, d: &Set) -> Option<P> {
        if d.iter().all(|x| *x == u64::MAX) { return None; }
        let mut t = [0u64; 256];
        for i in 0..256 { t[i] = set_has(d, i as u8) as u64; }
        unsafe { Some(Z3_mk_eq(self.c, self.mux(&t, self.var(v as u64), 7, 1), self.num(1, 1))) }
    }
    /// satisfiability of the conjunction of boolean expressions (each with polarity) and byte domains
    pub fn check(&mut self, ar: &Arena, cons: &[(E, bool)], doms: &[(usize, Set)], vars: Supp) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.used += 1;
        self.s = if cons.iter().any(|c| ar.fp[c.0 as usize]) { self.sfp } else { self.sbv };
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &(e, pol) in cons {
                let a = self.ast(ar, e);
                let q = Z3_mk_eq(self.c, a, self.num(1, pol as u128));
                Z3_solver_assert(self.c, self.s, q);
            }
            for (v, d) in doms {
                if let Some(a) = self.dom_ast(*v, d) { Z3_solver_assert(self.c, self.s, a); }
            }
            let r = Z3_solver_check(self.c, self.s);
            if Z3_get_error_code(self.c) != 0 {
                eprintln!("z3 error code {}", Z3_get_error_code(self.c));
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut o = vec![];
                    let mut bad = m.is_null();
                    if bad { Z3_solver_pop(self.c, self.s, 1); self.unknown += 1; return Res::Unknown; }
                    for v in 0..MAXSYM {
                        if vars >> v & 1 == 1 {
                            let mut p: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            let ok = Z3_model_eval(self.c, m, self.var(v as u64), true, &mut p) && Z3_get_numeral_uint64(self.c, p, &mut u);
                            if !ok { bad = true; break; } // interrupted
                            o.push((v, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    if bad { self.unknown += 1; Res::Unknown } else { self.sat += 1; Res::Sat(o) }
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let _ = (Z3_mk_not as usize, Z3_mk_and as usize, Z3_mk_or as usize);
        self.time += t0.elapsed();
        r
    }
}
impl Drop for Z3 {
    fn drop(&mut self) { SLOTS.lock().unwrap().retain(|x| *x != self.c as usize); unsafe { Z3_del_context(self.c) } }
}
