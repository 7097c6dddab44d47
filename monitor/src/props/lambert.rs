//! Lambert W re-exports (L01).
use crate::common::*;
use crate::engine::{cl, Clause, V};
use crate::gen::{Gen, A};
use crate::rng::ulps;
use crate::{call, oracle as o, tri};
use puruspe as p;

const EM1: f64 = -0.367_879_441_171_442_32;
fn gen_w0(g: &mut Gen) -> A {
    let x = match g.r.below(8) {
        0 => EM1 + g.r.logu(1e-17, 0.4), 1 => { let k = g.r.below(200) as i64; ulps(EM1, -k) }
        2 => g.r.logu(1e-300, f64::MAX), 3 => -g.r.logu(1e-300, 0.3678), 4 => g.r.uni(EM1, 10.0),
        5 => g.special(), 6 => { let w = g.r.uni(-1.0, 700.0); w * w.exp() }
        _ => g.real(-0.37, f64::MAX, EM1, 20.0, g.prev[0]),
    };
    [x, 0., 0., 0.]
}
fn judge_w0(what: &'static str, f: fn(f64) -> f64, x: f64, rel: f64) -> V {
    let v = tri!(call!(f(x)));
    if x.is_nan() || x < EM1 { return must(v.is_nan(), || format!("{what}({x:?}) = {v:e}, expected NaN")); }
    if x == f64::INFINITY { return must(v == f64::INFINITY, || format!("{what}(inf) = {v:e}")); }
    if x.abs() < 1e-300 { return must(v.abs() <= 1e-15, || format!("{what}({x:e}) = {v:e}")); }
    let (r, ok) = match o::lambertw(0, x) { Some(r) => r, None => return must((v + 1.0).abs() < 1e-7, || format!("{what}({x:?}) = {v:e}")) };
    if !ok { return V::Skip("oracle not converged"); }
    // near the branch point the value itself is ill-conditioned: half an ulp of the argument moves it by eps/(1+w)
    acc(what, Ok(v), &r, rel, (2.0 * EPS / (1.0 + r.d()).abs().max(1e-9)).min(4e-8))
}
fn j_w0(s: &A) -> V { judge_w0("lambert_w0", p::lambert_w0, s[0], 8.0 * EPS) }
fn j_sw0(s: &A) -> V { judge_w0("sp_lambert_w0", p::sp_lambert_w0, s[0], 1e-7) }
fn gen_wm1(g: &mut Gen) -> A {
    let x = match g.r.below(8) {
        0 => EM1 + g.r.logu(1e-17, 0.3), 1 => { let k = g.r.below(200) as i64; ulps(EM1, -k) }
        2..=3 => -g.r.logu(1e-300, 0.3678), 4 => g.r.uni(EM1, 0.0),
        5 => g.special(), 6 => { let w = -g.r.uni(1.0, 700.0); w * w.exp() }
        _ => g.real(-0.37, 0.1, EM1, 0.0, g.prev[0]),
    };
    [x, 0., 0., 0.]
}
fn judge_wm1(what: &'static str, f: fn(f64) -> f64, x: f64, rel: f64) -> V {
    let v = tri!(call!(f(x)));
    if x.is_nan() || x < EM1 || x > 0.0 { return must(v.is_nan(), || format!("{what}({x:?}) = {v:e}, expected NaN")); }
    if x == 0.0 { return must(v == f64::NEG_INFINITY, || format!("{what}(0) = {v:e}")); }
    if x.abs() < 2.3e-308 { return V::Skip("subnormal"); }
    let (r, ok) = match o::lambertw(-1, x) { Some(r) => r, None => return must((v + 1.0).abs() < 1e-7, || format!("{what}({x:?}) = {v:e}")) };
    if !ok { return V::Skip("oracle not converged"); }
    acc(what, Ok(v), &r, rel, (2.0 * EPS / (1.0 + r.d()).abs().max(1e-9)).min(4e-8))
}
fn j_wm1(s: &A) -> V { judge_wm1("lambert_wm1", p::lambert_wm1, s[0], 8.0 * EPS) }
fn j_swm1(s: &A) -> V { judge_wm1("sp_lambert_wm1", p::sp_lambert_wm1, s[0], 1e-7) }

fn gen_c(g: &mut Gen) -> A {
    let k = match g.r.below(4) { 0 => 0.0, 1 => g.r.below(7) as f64 - 3.0, 2 => g.r.below(41) as f64 - 20.0, _ => (g.r.sign() * g.r.logu(1.0, 1e6)).round() };
    let (x, y) = match g.r.below(8) {
        7 => { let (m, t) = (g.r.logu(1e-62, 1e102), g.r.uni(-3.2, 3.2)); (m * t.cos(), m * t.sin()) }
        0 => { let (m, t) = (g.r.logu(1e-6, 1e6), g.r.uni(-3.2, 3.2)); (m * t.cos(), m * t.sin()) }
        1 => (g.r.uni(-10.0, 10.0), g.r.uni(-10.0, 10.0)),
        2 => (g.r.uni(-10.0, 10.0), 0.0),
        3 => (0.0, g.r.uni(-10.0, 10.0)),
        4 => { let (m, t) = (g.r.logu(1e-3, 1.0), g.r.uni(-3.2, 3.2)); (EM1 + m * t.cos(), m * t.sin()) }
        5 => (g.r.uni(-10.0, 10.0), g.r.sign() * g.r.logu(1e-12, 1.0)),
        _ => (g.r.pick(&[1.0, -1.0, 0.5, -2.0, 2.718281828459045, 10.0]), g.r.pick(&[0.0, 1.0, -1.0, 2.0])),
    };
    [k, x, y, 0.]
}
fn j_c(s: &A) -> V {
    let (k, x, y) = (s[0].round(), s[1], s[2]);
    if !(k.abs() <= 1e6) { return V::Skip("outside the domain"); }
    let w = tri!(call!(p::lambert_w(k as i32, x, y)));
    if !x.is_finite() || !y.is_finite() { return must(w.0.is_nan() && w.1.is_nan(), || format!("lambert_w({k}, {x:?}, {y:?}) = {w:?}, expected NaN")); }
    let m = x.hypot(y);
    if m == 0.0 { return must(if k == 0.0 { w == (0.0, 0.0) } else { w.0 == f64::NEG_INFINITY }, || format!("lambert_w({k}, 0) = {w:?}")); }
    if !(1e-60..=1e100).contains(&m) || (x - EM1).hypot(y) < 1e-3 { return V::Skip("too close to a branch point or outside the range"); }
    // the lambert_w crate sometimes converges to a neighbouring branch inside this disc (known finding, see clause `dependency`)
    if k.abs() <= 1.0 && m < 3.0 && !(k == 0.0 && m < 0.2) { return V::Skip("disc with the known defect of the dependency"); }
    solves(k, x, y)
}
fn solves(k: f64, x: f64, y: f64) -> V {
    let m = x.hypot(y);
    let w = tri!(call!(p::lambert_w(k as i32, x, y)));
    if y == 0.0 && y.is_sign_negative() || x < 0.0 && y != 0.0 && y.abs() < 1e-9 * m { return V::Skip("on the branch cut"); }
    let (rel, br) = o::lambert_residual(w, (x, y));
    let want = if k == -1.0 && y == 0.0 && x >= EM1 && x < 0.0 { 0.0 } else { k };
    if (br - want).abs() > 0.01 { return V::Fail(format!("lambert_w({k}, {x:?}, {y:?}) = {w:?} lies on branch {br:.3}")); }
    let aw = w.0.hypot(w.1);
    // residual of w + ln w = ln z + 2 pi i k caused by a relative error t of w: t |w + 1|
    verdict(rel / (EPS * (16.0 + 8.0 * aw + 8.0 / aw)), || format!("lambert_w({k}, {x:?}, {y:?}) = {w:?} does not solve w e^w = z, residual {rel:e}"))
}
const KNOWN: [(f64, f64, f64); 3] = [(0.0, 0.5, 0.5), (0.0, 0.613725016212061, 0.555599129639461), (1.0, 0.44013095129283464, -2.2725822640991855e-10)];
fn gen_known(g: &mut Gen) -> A { let k = g.r.pick(&KNOWN); [k.0, k.1, k.2, 0.] }
fn j_known(s: &A) -> V { if KNOWN.contains(&(s[0], s[1], s[2])) { solves(s[0], s[1], s[2]) } else { V::Skip("not listed") } }
fn j_real(s: &A) -> V {
    // on the real axis lambert_w agrees with the real branches
    let x = s[0];
    if !(x > EM1 + 1e-3 && x.abs() > 1e-6 && x < 1e6) { return V::Skip("outside the domain"); }
    let a = tri!(call!(p::lambert_w(0, x, 0.0)));
    let b = tri!(call!(p::lambert_w0(x)));
    let mut r = ((a.0 - b).abs() + a.1.abs()) / (4.0 * EPS + 16.0 * EPS * b.abs() * (1.0 + 1.0 / (1.0 + b)));
    if x < 0.0 {
        let a = tri!(call!(p::lambert_w(-1, x, 0.0)));
        let b = tri!(call!(p::lambert_wm1(x)));
        r = r.max(((a.0 - b).abs() + a.1.abs()) / (4.0 * EPS + 16.0 * EPS * b.abs() * (1.0 - 1.0 / (1.0 + b))));
    }
    verdict(r, || format!("lambert_w and the real branches disagree at {x:?}"))
}
pub fn l01() -> Vec<Clause> {
    vec![cl("w0", "lambert_w0 against quad precision; NaN left of -1/e", 1, gen_w0, j_w0),
         cl("wm1", "lambert_wm1 against quad precision; NaN outside [-1/e, 0]", 1, gen_wm1, j_wm1),
         cl("sp_w0", "sp_lambert_w0, 24 bits", 1, gen_w0, j_sw0),
         cl("sp_wm1", "sp_lambert_wm1, 24 bits", 1, gen_wm1, j_swm1),
         cl("complex", "lambert_w solves w e^w = z on the requested branch", 3, gen_c, j_c),
         cl("dependency", "points where the lambert_w crate is known to return another branch", 3, gen_known, j_known).w(0.01).nomut(),
         cl("real_axis", "lambert_w on the real axis", 1, gen_w0, j_real)]
}
