//! Minimal bindings to the Z3 C API.
use crate::expr::{Arena, Bin2, E, K};
use std::collections::HashMap;
use std::ffi::{CString, c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_to_string(c: P, s: P) -> *const std::ffi::c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

pub struct Z3 {
    c: P,
    s: P,
    memo: HashMap<E, P>,
    one: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let k = CString::new("smt.random_seed").unwrap();
            let v = CString::new("1").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let key = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, key.as_ptr()), 20_000);
            Z3_solver_set_params(c, s, p);
            let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
            Z3 { c, s, memo: HashMap::new(), one, queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0 }
        }
    }
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let n = ar.nodes[e as usize];
        let c = self.c;
        let w = n.w as c_uint;
        let p = unsafe {
            match n.k {
                K::Const(v) => {
                    let s = Z3_mk_bv_sort(c, w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, v as u64, s)
                    } else {
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                K::Var(i) => {
                    let t = CString::new(format!("v{i}_{w}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                K::Bin(op, a, b) => {
                    let x = self.tr(ar, a);
                    let y = self.tr(ar, b);
                    match op {
                        Bin2::Add => Z3_mk_bvadd(c, x, y),
                        Bin2::Sub => Z3_mk_bvsub(c, x, y),
                        Bin2::Mul => Z3_mk_bvmul(c, x, y),
                        Bin2::UDiv => Z3_mk_bvudiv(c, x, y),
                        Bin2::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bin2::URem => Z3_mk_bvurem(c, x, y),
                        Bin2::SRem => Z3_mk_bvsrem(c, x, y),
                        Bin2::And => Z3_mk_bvand(c, x, y),
                        Bin2::Or => Z3_mk_bvor(c, x, y),
                        Bin2::Xor => Z3_mk_bvxor(c, x, y),
                        Bin2::Shl => Z3_mk_bvshl(c, x, y),
                        Bin2::LShr => Z3_mk_bvlshr(c, x, y),
                        Bin2::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b) | K::Slt(a, b) | K::Sle(a, b) => {
                    let x = self.tr(ar, a);
                    let y = self.tr(ar, b);
                    let b = match n.k {
                        K::Eq(..) => Z3_mk_eq(c, x, y),
                        K::Ult(..) => Z3_mk_bvult(c, x, y),
                        K::Ule(..) => Z3_mk_bvule(c, x, y),
                        K::Slt(..) => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    };
                    let z = Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1));
                    Z3_mk_ite(c, b, self.one, z)
                }
                K::Not(a) => {
                    let x = self.tr(ar, a);
                    Z3_mk_bvnot(c, x)
                }
                K::Ite(g, a, b) => {
                    let gg = self.tr(ar, g);
                    let x = self.tr(ar, a);
                    let y = self.tr(ar, b);
                    Z3_mk_ite(c, Z3_mk_eq(c, gg, self.one), x, y)
                }
                K::ZExt(a) => {
                    let x = self.tr(ar, a);
                    Z3_mk_zero_ext(c, w - ar.w(a), x)
                }
                K::SExt(a) => {
                    let x = self.tr(ar, a);
                    Z3_mk_sign_ext(c, w - ar.w(a), x)
                }
                K::Extract(a, lo) => {
                    let x = self.tr(ar, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                }
                K::Concat(h, l) => {
                    let x = self.tr(ar, h);
                    let y = self.tr(ar, l);
                    Z3_mk_concat(c, x, y)
                }
            }
        };
        self.memo.insert(e, p);
        p
    }
    pub fn reset_counts(&mut self) {
        self.queries = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.secs = 0.0;
    }
    /// Are the (1-bit) terms jointly satisfiable?  On sat, fills `model` for `vars`.
    pub fn check(&mut self, ar: &Arena, cs: &[E], vars: &[(u32, E)]) -> Option<Option<Vec<(u32, u64)>>> {
        let t0 = Instant::now();
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let p = self.tr(ar, e);
                let q = Z3_mk_eq(self.c, p, self.one);
                Z3_solver_assert(self.c, self.s, q);
            }
            let r = Z3_solver_check(self.c, self.s);
            self.queries += 1;
            if t0.elapsed().as_secs_f64() > 0.5 && std::env::var("SX_SLOW").is_ok() {
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s));
                eprintln!("slow {:.1}s {}", t0.elapsed().as_secs_f64(), t.to_string_lossy());
            }
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for &(id, e) in vars {
                        let t = self.tr(ar, e);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, t, true, &mut o);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.c, o, &mut u);
                        v.push((id, u));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(Some(v))
                }
                -1 => {
                    self.unsat += 1;
                    Some(None)
                }
                _ => {
                    self.unknown += 1;
                    None
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            self.secs += t0.elapsed().as_secs_f64();
            out
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
