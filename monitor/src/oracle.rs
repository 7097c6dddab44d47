//! FFI to the quadruple precision oracle.
use std::os::raw::{c_char, c_int};

#[repr(C, align(16))]
#[derive(Clone, Copy, Default)]
pub struct Q([u64; 2]);

extern "C" {
    fn q_rel(r: *const Q, g: f64) -> f64;
    fn q_abs(r: *const Q, g: f64) -> f64;
    fn q_d(r: *const Q) -> f64;
    fn q_log2(r: *const Q) -> f64;
    fn q_from(a: f64, o: *mut Q);
    fn q_add(a: *const Q, b: *const Q, o: *mut Q);
    fn q_sub(a: *const Q, b: *const Q, o: *mut Q);
    fn q_mul(a: *const Q, b: *const Q, o: *mut Q);
    fn q_div(a: *const Q, b: *const Q, o: *mut Q);
    fn o_lgamma(x: f64, o: *mut Q);
    fn o_gamma(x: f64, o: *mut Q);
    fn o_factorial(n: u64, o: *mut Q);
    fn o_beta(a: f64, b: f64, o: *mut Q, ln: *mut f64);
    fn o_gammapq(a: f64, x: f64, p: *mut Q, q: *mut Q) -> c_int;
    fn o_gammadens(a: f64, x: f64, o: *mut Q);
    fn o_betai(a: f64, b: f64, x: f64, i: *mut Q, j: *mut Q) -> c_int;
    fn o_betadens(a: f64, b: f64, x: f64, o: *mut Q);
    fn o_erf(x: f64, o: *mut Q);
    fn o_erfc(x: f64, o: *mut Q);
    fn o_erfcx(x: f64, o: *mut Q);
    fn o_dawson(x: f64, o: *mut Q);
    fn o_w(x: f64, y: f64, r: *mut Q, i: *mut Q, l: *mut f64);
    fn o_besseljy(nu: f64, x: f64, o: *mut Q) -> c_int;
    fn o_temme_zero(mu: f64, n: c_int) -> f64;
    fn o_besselik(nu: f64, x: f64, o: *mut Q) -> c_int;
    fn o_jyn(n: c_int, x: f64, o: *mut Q);
    fn o_lambertw(b: c_int, z: f64, o: *mut Q) -> c_int;
    fn o_lambert_residual(wr: f64, wi: f64, zr: f64, zi: f64, rel: *mut f64, br: *mut f64);
    fn o_selftest(t: *const c_char, n: *mut c_int, w: *mut f64, e: *mut c_char, l: c_int) -> c_int;
}

impl Q {
    pub fn from(a: f64) -> Q { one(|o| unsafe { q_from(a, o) }) }
    pub fn d(&self) -> f64 { unsafe { q_d(self) } }
    pub fn log2(&self) -> f64 { unsafe { q_log2(self) } }
    pub fn rel(&self, got: f64) -> f64 { unsafe { q_rel(self, got) } }
    pub fn abs(&self, got: f64) -> f64 { unsafe { q_abs(self, got) } }
    pub fn add(&self, b: &Q) -> Q { one(|o| unsafe { q_add(self, b, o) }) }
    pub fn sub(&self, b: &Q) -> Q { one(|o| unsafe { q_sub(self, b, o) }) }
    pub fn mul(&self, b: &Q) -> Q { one(|o| unsafe { q_mul(self, b, o) }) }
    pub fn div(&self, b: &Q) -> Q { one(|o| unsafe { q_div(self, b, o) }) }
}
fn one(f: impl FnOnce(*mut Q)) -> Q { let mut q = Q::default(); f(&mut q); q }
pub fn lgamma(x: f64) -> Q { one(|o| unsafe { o_lgamma(x, o) }) }
pub fn gamma(x: f64) -> Q { one(|o| unsafe { o_gamma(x, o) }) }
pub fn factorial(n: u64) -> Q { one(|o| unsafe { o_factorial(n, o) }) }
pub fn beta(a: f64, b: f64) -> (Q, f64) { let mut l = 0.; let q = one(|o| unsafe { o_beta(a, b, o, &mut l) }); (q, l) }
pub fn gammapq(a: f64, x: f64) -> Option<(Q, Q)> { let (mut p, mut q) = <(Q, Q)>::default(); if unsafe { o_gammapq(a, x, &mut p, &mut q) } == 1 { Some((p, q)) } else { None } }
pub fn gammadens(a: f64, x: f64) -> Q { one(|o| unsafe { o_gammadens(a, x, o) }) }
pub fn betai(a: f64, b: f64, x: f64) -> Option<(Q, Q)> { let (mut p, mut q) = <(Q, Q)>::default(); if unsafe { o_betai(a, b, x, &mut p, &mut q) } == 1 { Some((p, q)) } else { None } }
pub fn betadens(a: f64, b: f64, x: f64) -> Q { one(|o| unsafe { o_betadens(a, b, x, o) }) }
pub fn erf(x: f64) -> Q { one(|o| unsafe { o_erf(x, o) }) }
pub fn erfc(x: f64) -> Q { one(|o| unsafe { o_erfc(x, o) }) }
pub fn erfcx(x: f64) -> Q { one(|o| unsafe { o_erfcx(x, o) }) }
pub fn dawson(x: f64) -> Q { one(|o| unsafe { o_dawson(x, o) }) }
/// (re, im, ln|exp(-z^2)|)
pub fn w(x: f64, y: f64) -> (Q, Q, f64) { let (mut p, mut q) = <(Q, Q)>::default(); let mut l = 0.; unsafe { o_w(x, y, &mut p, &mut q, &mut l) }; (p, q, l) }
pub fn besseljy(nu: f64, x: f64) -> Option<[Q; 4]> { let mut o = [Q::default(); 4]; if unsafe { o_besseljy(nu, x, o.as_mut_ptr()) } == 1 { Some(o) } else { None } }
/// an input at which a term of Temme's series vanishes, 0 when there is none
pub fn temme_zero(mu: f64, n: i32) -> f64 { unsafe { o_temme_zero(mu, n) } }
pub fn besselik(nu: f64, x: f64) -> Option<[Q; 4]> { let mut o = [Q::default(); 4]; if unsafe { o_besselik(nu, x, o.as_mut_ptr()) } == 1 { Some(o) } else { None } }
pub fn jyn(n: i32, x: f64) -> [Q; 2] { let mut o = [Q::default(); 2]; unsafe { o_jyn(n, x, o.as_mut_ptr()) }; o }
/// value, and whether the iteration converged
pub fn lambertw(b: i32, z: f64) -> Option<(Q, bool)> { let mut q = Q::default(); match unsafe { o_lambertw(b, z, &mut q) } { 0 => None, 1 => Some((q, true)), _ => Some((q, false)) } }
pub fn lambert_residual(w: (f64, f64), z: (f64, f64)) -> (f64, f64) { let (mut r, mut b) = (0., 0.); unsafe { o_lambert_residual(w.0, w.1, z.0, z.1, &mut r, &mut b) }; (r, b) }

/// Replays the mpmath golden values through the oracle.
pub fn selftest() -> Result<(i32, f64), String> {
    let text = concat!(include_str!("../../oracle/golden.txt"), "\0");
    let mut err = [0u8; 4096];
    let (mut n, mut worst) = (0, 0.0);
    let bad = unsafe { o_selftest(text.as_ptr() as *const c_char, &mut n, &mut worst, err.as_mut_ptr() as *mut c_char, 4096) };
    if bad != 0 { Err(format!("oracle self-test: {bad} bad values, worst {}", String::from_utf8_lossy(&err).trim_end_matches('\0'))) } else { Ok((n, worst)) }
}
