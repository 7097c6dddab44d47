use crate::engine::V;
use crate::oracle::Q;
use std::sync::OnceLock;
pub const EPS: f64 = f64::EPSILON;
fn cal() -> bool { static C: OnceLock<bool> = OnceLock::new(); *C.get_or_init(|| std::env::var("MON_CALIBRATE").is_ok()) }
/// error/tolerance -> verdict
pub fn verdict(r: f64, msg: impl FnOnce() -> String) -> V {
    if r <= 1.0 { V::Pass(r) } else if cal() && !r.is_nan() { V::Pass(r) } else { V::Fail(msg()) }
}
/// error of `got` against the quad reference, in units of (rel*|ref| + abs)
pub fn ratio(got: f64, r: &Q, rel: f64, abs: f64) -> f64 {
    if got.is_nan() { return f64::INFINITY; }
    let rd = r.d();
    if got.is_infinite() {
        // correct when the true value, within its tolerance, is beyond f64::MAX
        return if rd != 0.0 && (rd > 0.0) == (got > 0.0) && r.log2() >= 1024.0 - 3.0 * rel - 1e-15 { 0.0 } else { f64::INFINITY };
    }
    let e = r.abs(got);
    if rd.is_infinite() || e.is_infinite() { return r.rel(got) / rel; }
    e / (rel * rd.abs() + abs + 1.5e-323)
}
/// judge one accuracy observation
pub fn acc(what: &str, got: Result<f64, String>, r: &Q, rel: f64, abs: f64) -> V {
    match got {
        Err(p) => V::Fail(format!("{what} {p} (expected {:e})", r.d())),
        Ok(g) => { let q = ratio(g, r, rel, abs); verdict(q, || format!("{what} returned {g:e}, the true value is {:e}: error {:.3e} is {:.3e} times the allowed {:.3e}", r.d(), r.abs(g), q, rel * r.d().abs() + abs)) }
    }
}
/// the worst of several verdicts
pub fn all(vs: impl IntoIterator<Item = V>) -> V {
    let (mut w, mut skip, mut any) = (0.0f64, None, false);
    for v in vs { match v { V::Fail(m) => return V::Fail(m), V::Pass(r) => { any = true; w = w.max(r) } V::Skip(s) => skip = Some(s) } }
    if any { V::Pass(w) } else { V::Skip(skip.unwrap_or("nothing to judge")) }
}
pub fn must(ok: bool, m: impl FnOnce() -> String) -> V { if ok { V::Pass(0.0) } else { V::Fail(m()) } }
/// equal, where any NaN equals any NaN and the sign of zero counts
pub fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
#[macro_export]
macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(m) => return $crate::engine::V::Fail(m) } } }
#[macro_export]
macro_rules! call { ($($t:tt)*) => { $crate::engine::call(|| $($t)*) } }
