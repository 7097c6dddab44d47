use crate::common::*;
use crate::engine::{cl, Clause, V};
use crate::gen::{Gen, A};
use crate::rng::ulps;
use crate::{call, oracle as o, tri};
use puruspe as p;

// ---------------------------------------------------------------- E01 erf, erfc
fn gen_e(g: &mut Gen) -> A {
    let pr = g.prev[0];
    let x = match g.r.below(8) { 0..=2 => g.real(-1e308, 1e308, -6.0, 6.0, pr), 3 => g.r.uni(-7.0, 28.0), 4 => g.real(-1e308, 1e308, -1.0, 1.0, pr), 5 => g.r.logu(1e-320, 1.0) * g.r.sign(), 6 => g.r.uni(25.0, 28.0), _ => g.real(-1e308, 1e308, -30.0, 30.0, pr) };
    [x, 0., 0., 0.]
}
pub fn tol_erfc_rel(x: f64) -> f64 { 4e-15 + 3.0 * EPS * x * x }
fn j_erf(s: &A) -> V {
    let x = s[0];
    if !x.is_finite() { return V::Skip("outside the domain"); }
    acc("erf", call!(p::erf(x)), &o::erf(x), 0.0, 1e-15)
}
fn j_erfc(s: &A) -> V {
    let x = s[0];
    if !x.is_finite() { return V::Skip("outside the domain"); }
    if x > 27.2 { let v = tri!(call!(p::erfc(x))); return must((0.0..=1e-320).contains(&v), || format!("erfc({x:?}) = {v:e}, expected underflow to 0")); }
    acc("erfc", call!(p::erfc(x)), &o::erfc(x), if x < 0.0 { 2e-15 } else { tol_erfc_rel(x) }, 5e-324 * 2.0)
}
fn j_erfid(s: &A) -> V {
    let x = s[0];
    let (e, m, c, cm) = (tri!(call!(p::erf(x))), tri!(call!(p::erf(-x))), tri!(call!(p::erfc(x))), tri!(call!(p::erfc(-x))));
    if x.is_nan() { return must(e.is_nan() && m.is_nan() && c.is_nan() && cm.is_nan(), || format!("erf(NaN) = {e}, erfc(NaN) = {c}")); }
    if !((-1.0..=1.0).contains(&e) && (0.0..=2.0).contains(&c)) { return V::Fail(format!("erf({x:?}) = {e:?} or erfc = {c:?} out of range")); }
    if x == f64::INFINITY && (e != 1.0 || c != 0.0) || x == f64::NEG_INFINITY && (e != -1.0 || c != 2.0) { return V::Fail(format!("erf({x:?}) = {e:?}, erfc = {c:?}")); }
    if x > 6.5 && e != 1.0 || x < -6.5 && (e != -1.0 || c != 2.0) { return V::Fail(format!("erf({x:?}) = {e:?}, erfc = {c:?} not saturated")); }
    let sg = (x > 1e-14 && e <= 0.0) || (x < -1e-14 && e >= 0.0);
    if sg { return V::Fail(format!("erf({x:?}) = {e:?} has the wrong sign")); }
    verdict(((e + m).abs().max((e + c - 1.0).abs()).max((c + cm - 2.0).abs())) / 1e-15, || format!("erf(x)+erf(-x) = {:e}, erf+erfc-1 = {:e}, erfc(x)+erfc(-x)-2 = {:e} at x = {x:?}", e + m, e + c - 1.0, c + cm - 2.0))
}
fn gen_e_any(g: &mut Gen) -> A { if g.r.chance(0.7) { gen_e(g) } else { [g.any(), 0., 0., 0.] } }
fn gen_emono(g: &mut Gen) -> A { let s = gen_e(g); let y = match g.r.below(4) { 0 => { let k = g.r.below(2000) as i64; ulps(s[0], k) } 1 => s[0] * (1.0 + g.r.logu(1e-15, 1e-2)), 2 => s[0] + g.r.logu(1e-10, 2.0), _ => -s[0] }; [s[0].min(y), s[0].max(y), 0., 0.] }
fn j_emono(s: &A) -> V {
    let (x, y) = (s[0], s[1]);
    if !(x.is_finite() && y.is_finite()) || !(x <= y) { return V::Skip("outside the domain"); }
    let (e, f, c, d) = (tri!(call!(p::erf(x))), tri!(call!(p::erf(y))), tri!(call!(p::erfc(x))), tri!(call!(p::erfc(y))));
    let t = tol_erfc_rel(x.max(0.0)).min(1.0);
    verdict(((e - f) / 2e-15).max((d - c) / (2.0 * t * c + 1e-323)).max(0.0), || format!("not monotone between {x:?} and {y:?}: erf {e:e}, {f:e}; erfc {c:e}, {d:e}"))
}
pub fn e01() -> Vec<Clause> {
    vec![cl("erf", "erf against the quad-precision error function, absolute error", 1, gen_e, j_erf).w(2.0),
         cl("erfc", "erfc against the quad-precision complementary error function, relative error down to underflow", 1, gen_e, j_erfc).w(2.0),
         cl("identities", "range, sign, oddness, erf + erfc = 1, reflection, infinities and NaN on any bit pattern", 1, gen_e_any, j_erfid),
         cl("monotone", "erf does not decrease, erfc does not increase", 2, gen_emono, j_emono)]
}
// ---------------------------------------------------------------- E02 erfcx
fn gen_ex(g: &mut Gen) -> A {
    let pr = g.prev[0];
    let x = match g.r.below(10) { 0..=2 => g.real(-26.6287, 1e308, -7.0, 13.0, pr), 3 => g.r.uni(0.0, 12.5), 4 => g.real(-26.6287, 1e308, -0.2, 0.2, pr), 5 => g.r.logu(1e-320, 1.0) * g.r.sign(), 6 => g.r.logu(10.0, 1e9), 7 => g.r.uni(-26.7, 0.0), 8 => { let k = g.r.below(64 * 8) as f64; let e = (g.r.below(7) as f64 - 3.0).exp2(); let v = e * (1.0 + k / 512.0); g.near(v) } _ => g.real(-26.6287, 1e308, 10.0, 200.0, pr) };
    [x, 0., 0., 0.]
}
fn j_ex(s: &A) -> V {
    let x = s[0];
    if !(x >= -26.6287 && x.is_finite()) { return V::Skip("outside the domain"); }
    acc("erfcx", call!(p::erfcx(x)), &o::erfcx(x), 2e-15 + if x < 0.0 { 2.0 * EPS * x * x } else { 0.0 }, 5e-324)
}
fn j_exid(s: &A) -> V {
    // erfc(x) = exp(-x^2) erfcx(x), two independent implementations
    let x = s[0];
    if !(x >= -26.0 && x <= 26.0) { return V::Skip("outside the domain"); }
    let (a, b) = (tri!(call!(p::erfcx(x))), tri!(call!(p::erfc(x))));
    let c = a * (-x * x).exp();
    verdict((b - c).abs() / ((tol_erfc_rel(x) + 4e-15 + 3.0 * EPS * x * x) * c), || format!("erfc = {b:e} but exp(-x^2) erfcx = {c:e}"))
}
fn gen_exs(g: &mut Gen) -> A { [match g.r.below(4) { 0 => g.any(), 1 => g.special(), 2 => -g.r.logu(26.0, 1e308), _ => { let e = g.r.pick(&[-26.7, -26.6287357, -6.1, 0.125, -0.125, 12.0, 23.2, 150.0, 6.9e7]); g.near(e) } }, 0., 0., 0.] }
fn j_exs(s: &A) -> V {
    let x = s[0];
    let v = tri!(call!(p::erfcx(x)));
    if x.is_nan() { return must(v.is_nan(), || format!("erfcx(NaN) = {v}")); }
    if x == f64::INFINITY { return must(v == 0.0, || format!("erfcx(inf) = {v}")); }
    if x < -26.6288 { return must(v == f64::INFINITY, || format!("erfcx({x:?}) = {v:e}, expected overflow to infinity")); }
    must(v > 0.0 || x > 1e307, || format!("erfcx({x:?}) = {v:e} is not positive"))
}
fn gen_exm(g: &mut Gen) -> A { let s = gen_ex(g); let y = match g.r.below(4) { 0 => { let k = g.r.below(2000) as i64; ulps(s[0], k) } 1 => s[0] * (1.0 + g.r.logu(1e-15, 1e-2)), 2 => s[0] + g.r.logu(1e-10, 2.0), _ => s[0].abs() }; [s[0].min(y), s[0].max(y), 0., 0.] }
fn j_exm(s: &A) -> V {
    let (x, y) = (s[0], s[1]);
    if !(x >= -26.6287 && y.is_finite()) || !(x <= y) { return V::Skip("outside the domain"); }
    let (c, d) = (tri!(call!(p::erfcx(x))), tri!(call!(p::erfcx(y))));
    verdict(((d - c) / (c * (4e-15 + 4.0 * EPS * x.min(0.0).powi(2)))).max(0.0), || format!("erfcx increases from {c:e} at {x:?} to {d:e} at {y:?}"))
}
pub fn e02() -> Vec<Clause> {
    vec![cl("erfcx", "erfcx against the quad-precision scaled complementary error function, relative error", 1, gen_ex, j_ex).w(3.0),
         cl("erfcx_vs_erfc", "erfc(x) = exp(-x^2) erfcx(x)", 1, gen_ex, j_exid),
         cl("erfcx_special", "positive; overflow, infinities and NaN on any bit pattern", 1, gen_exs, j_exs).w(0.5),
         cl("erfcx_monotone", "erfcx does not increase", 2, gen_exm, j_exm)]
}
// ---------------------------------------------------------------- E03 inverses
fn gen_q(g: &mut Gen) -> A {
    let pr = g.prev[0];
    let v = match g.r.below(9) { 0..=1 => g.r.uni(0.0, 2.0), 2 => g.r.logu(1e-300, 1.0), 3 => 2.0 - g.r.logu(1e-16, 1.0), 4 => 1.0 + g.r.sign() * g.r.logu(1e-16, 0.5), 5 => g.real(1e-300, 2.0, 0.0, 2.0, pr), 6 => (g.r.below(2001) as f64) / 1000.0, 7 => g.r.logu(5e-324, 1e-280), _ => g.near(1.0) };
    [v.clamp(0.0, 2.0), 0., 0., 0.]
}
fn inv_ok(what: &str, x: f64, c: &o::Q, want: f64, tail: bool) -> V {
    // c = erfc(x) in quad precision; compare with the requested value in the relative sense
    let dens = 1.1283791670955126 * (-x * x).exp();
    let tol = 4e-14 * want.min(2.0 - want) + 4.0 * EPS * x.abs() * dens + 1e-15 * if tail { 0.0 } else { 1.0 };
    verdict(c.abs(want) / tol.max(5e-323), || format!("{what} = {x:e}, but erfc of it is {:e}", c.d()))
}
fn j_ierfc(s: &A) -> V {
    let q = s[0];
    if !(q > 0.0 && q < 2.0) { return V::Skip("end points"); }
    let x = tri!(call!(p::inverfc(q)));
    if !(x.abs() < 40.0) { return V::Fail(format!("inverfc({q:?}) = {x:?}")); }
    inv_ok(&format!("inverfc({q:?})"), x, &o::erfc(x), q, q < 0.5)
}
fn gen_ip(g: &mut Gen) -> A { let s = gen_q(g); [match g.r.below(3) { 0 => s[0] - 1.0, 1 => g.r.uni(-1.0, 1.0), _ => g.r.logu(1e-18, 1.0) * g.r.sign() }, 0., 0., 0.] }
fn j_ierf(s: &A) -> V {
    let pv = s[0];
    if !(pv > -1.0 && pv < 1.0) { return V::Skip("end points"); }
    let x = tri!(call!(p::inverf(pv)));
    if !(x.abs() < 40.0) && 1.0 - pv < 2.0 && 1.0 - pv > 0.0 { return V::Fail(format!("inverf({pv:?}) = {x:?}")); }
    if x.abs() >= 40.0 { return must(pv.abs() >= 1.0 - EPS, || format!("inverf({pv:?}) = {x:?}")); }
    let c = o::erf(x);
    verdict(c.abs(pv) / 2e-15, || format!("x = inverf({pv:?}) = {x:e}, but erf(x) = {:e}: off by {:e}", c.d(), c.abs(pv)))
}
fn j_isym(s: &A) -> V {
    let q = s[0];
    if q.is_nan() { let (a, b) = (tri!(call!(p::inverfc(q))), tri!(call!(p::inverf(q)))); return must(a.is_nan() && b.is_nan(), || format!("inverfc(NaN) = {a}, inverf(NaN) = {b}")); }
    let x = tri!(call!(p::inverfc(q)));
    if q <= 0.0 { return must(x == 100.0, || format!("inverfc({q:?}) = {x}")); }
    if q >= 2.0 { return must(x == -100.0, || format!("inverfc({q:?}) = {x}")); }
    let y = tri!(call!(p::inverf(1.0 - q)));
    if 1.0 - (1.0 - q) == q && !same(x, y) { return verdict((x - y).abs() / (4.0 * EPS * x.abs()), || format!("inverfc({q:?}) = {x:e} but inverf(1-{q:?}) = {y:e}")); }
    if 2.0 - (2.0 - q) == q { let z = tri!(call!(p::inverfc(2.0 - q))); if q != 1.0 { return verdict((x + z).abs() / (4.0 * EPS * x.abs() + 4e-16), || format!("inverfc({q:?}) = {x:e} but inverfc(2-q) = {z:e}")); } }
    must(if q < 0.9999999 { x > 0.0 } else if q > 1.0000001 { x < 0.0 } else { x.abs() < 1e-6 }, || format!("inverfc({q:?}) = {x:e} has the wrong sign"))
}
fn gen_qany(g: &mut Gen) -> A { if g.r.chance(0.6) { gen_q(g) } else if g.r.chance(0.5) { [1.0 + (g.r.below(1 << 20) as f64 - 524288.0) / 524288.0, 0., 0., 0.] } else { [g.any(), 0., 0., 0.] } }
fn gen_iq2(g: &mut Gen) -> A { let s = gen_q(g); let y = match g.r.below(3) { 0 => s[0] * (1.0 + g.r.logu(1e-12, 1e-1)), 1 => s[0] + g.r.logu(1e-12, 0.5), _ => g.r.uni(0.0, 2.0) }.clamp(0.0, 2.0); [s[0].min(y), s[0].max(y), 0., 0.] }
fn j_imono(s: &A) -> V {
    let (a, b) = (s[0], s[1]);
    if !(a > 0.0 && b < 2.0 && a < b) { return V::Skip("outside the domain"); }
    let (x, y) = (tri!(call!(p::inverfc(a))), tri!(call!(p::inverfc(b))));
    // differences below the accuracy are not judged
    if b - a < 1e-13 * a || b - a < 1e-13 * (2.0 - b) || b - a < 1e-14 && b > 0.5 { return V::Skip("closer than the tolerance"); }
    must(y <= x + 8.0 * EPS * x.abs(), || format!("inverfc increases: {x:e} at {a:?}, {y:e} at {b:?}"))
}
pub fn e03() -> Vec<Clause> {
    vec![cl("inverfc", "erfc(inverfc(p)) = p with erfc from the quad-precision oracle, relative in the tails", 1, gen_q, j_ierfc).w(3.0),
         cl("inverf", "erf(inverf(p)) = p with erf from the quad-precision oracle", 1, gen_ip, j_ierf).w(2.0),
         cl("inverse_laws", "saturation, NaN, antisymmetry, inverf(1-p) = inverfc(p), sign", 1, gen_qany, j_isym),
         cl("inverse_monotone", "inverfc does not increase", 2, gen_iq2, j_imono)]
}
// ---------------------------------------------------------------- D01 Dawson
fn gen_d(g: &mut Gen) -> A {
    let pr = g.prev[0];
    let x = match g.r.below(9) { 0..=2 => g.real(-1e308, 1e308, -10.0, 10.0, pr), 3 => g.r.uni(-3.0, 3.0), 4 => g.r.logu(1e-320, 1.0) * g.r.sign(), 5 => g.r.logu(1.0, 1e10) * g.r.sign(), 6 => { let k = g.r.below(200) as f64 * 0.4; let v = k * g.r.sign(); g.near(v) } 7 => { let e = g.r.pick(&[0.2, 1e8, 1e7]); let v = e * g.r.sign(); g.near(v) } _ => g.r.logu(1e8, 1e308) * g.r.sign() };
    [x, 0., 0., 0.]
}
fn j_d(s: &A) -> V {
    let x = s[0];
    if !x.is_finite() { return V::Skip("outside the domain"); }
    acc("dawson", call!(p::dawson(x)), &o::dawson(x), if x.abs() < 0.2 { 5e-7 } else if x.abs() > 1e8 { 1e-15 } else { 1e-6 }, 5e-324)
}
fn j_dsmall(s: &A) -> V {
    // power series below 0.2: x - 2/3 x^3 + 4/15 x^5 - 8/105 x^7 with the first neglected term 16/945 x^9
    let x = s[0];
    if !(x.abs() < 0.2) { return V::Skip("not in the series range"); }
    acc("dawson", call!(p::dawson(x)), &o::dawson(x), 2e-15 + 0.03 * x.powi(8), 5e-324)
}
fn j_dsym(s: &A) -> V {
    let x = s[0];
    let (a, b) = (tri!(call!(p::dawson(x))), tri!(call!(p::dawson(-x))));
    if x.is_nan() { return must(a.is_nan(), || format!("dawson(NaN) = {a}")); }
    if a.to_bits() != (-b).to_bits() { return V::Fail(format!("dawson({x:?}) = {a:?} but dawson({:?}) = {b:?}", -x)); }
    must(a.abs() <= 0.5410443 && (a == 0.0 || (a > 0.0) == (x > 0.0)), || format!("dawson({x:?}) = {a:?}"))
}
fn gen_dany(g: &mut Gen) -> A { if g.r.chance(0.6) { gen_d(g) } else { [g.any(), 0., 0., 0.] } }
fn gen_dsmall(g: &mut Gen) -> A { [match g.r.below(4) { 0 => g.r.uni(-0.2, 0.2), 1 => { let e = 0.2 * g.r.sign(); g.near(e) } 2 => g.r.logu(1e-320, 0.2) * g.r.sign(), _ => g.r.logu(1e-4, 0.2) * g.r.sign() }, 0., 0., 0.] }
pub fn d01() -> Vec<Clause> {
    vec![cl("dawson", "dawson against the quad-precision Dawson integral, relative error", 1, gen_d, j_d).w(3.0),
         cl("dawson_small", "dawson near zero, relative error", 1, gen_dsmall, j_dsmall),
         cl("dawson_laws", "odd to the last bit, bounded by its maximum, signs, NaN", 1, gen_dany, j_dsym)]
}
// ---------------------------------------------------------------- W01 Faddeeva
fn gen_z(g: &mut Gen) -> A {
    let (px, py) = (g.prev[0], g.prev[1]);
    let (x, y) = match g.r.below(16) {
        0..=3 => (g.r.uni(-7.5, 7.5), g.r.uni(-7.5, 7.5)),
        4 => (g.real(-1e307, 1e307, -10.0, 10.0, px), g.real(-1e307, 1e307, -5.0, 10.0, py)),
        5 => { let m = g.r.pick(&[0.2302, 0.083, 6.32e-4, 7.0, 23.24, 150.0, 6.928e7, 0.05, 0.2]); let r = if g.r.chance(0.5) { m * g.r.uni(0.9, 1.1) } else { g.near(m) }; let t = g.r.uni(-3.1416, 3.1416); (r * t.cos(), r * t.sin()) }
        6 => { let m = g.r.pick(&[1e12, 1e12, 1e307]); let r = g.r.logu(1e-20, m); let t = g.r.uni(-3.1416, 3.1416); (r * t.cos(), r * t.sin()) }
        7 => { let r = g.r.logu(1e-6, 1e3); let t = g.r.uni(0.0, 3.1416); (r * t.cos(), r * t.sin()) }
        8 => { let x = g.r.uni(-12.0, 12.0); (x, x * g.r.logu(1e-12, 1e-4) * g.r.sign()) }
        9 => { let y = g.r.uni(-12.0, 12.0); (y * g.r.logu(1e-12, 1e-4) * g.r.sign(), y) }
        10 => { let i = g.r.below(50) as f64; let j = g.r.below(50) as f64; let (u, v) = (i / 7.0, j / 7.0); (g.near(u) * g.r.sign(), g.near(v) * g.r.sign()) }
        11 => (g.r.uni(-7.0, 7.0), g.r.logu(1e-10, 1.0) * g.r.sign()),
        12 => (g.r.logu(1e-10, 1.0) * g.r.sign(), g.r.uni(-7.0, 7.0)),
        13 => { let r = g.r.logu(7.0, 1e5); let t = g.r.logu(1e-9, 0.5); let k = g.r.below(4); match k { 0 => (r, r * t), 1 => (-r, r * t), 2 => (r * t, r), _ => (r, -r * t) } }
        14 => { let e = g.r.logu(1e-3, 1e3) * g.r.sign(); let k = g.r.pick(&[1e-8, 1.0]); let f = k * e; if g.r.chance(0.5) { (e, g.near(f) * g.r.sign()) } else { (g.near(f) * g.r.sign(), e) } }
        _ => { let x = g.r.uni(-26.0, 26.0); (x, g.r.uni(-26.0, 7.0)) }
    };
    [x, y, 0., 0.]
}
fn dom_z(x: f64, y: f64) -> bool { x.abs() <= 1e307 && y.abs() <= 1e307 }
fn near_axis(x: f64, y: f64) -> bool { x.abs() <= 27.0 && y.abs() < 1.0000001e-8 * x.abs() }
/// error bound of |w|: relative to |w|, the reflection term 2 exp(-z^2), and, near the real axis, Dawson's integral
pub fn tol_w(x: f64, y: f64, w: f64, le: f64) -> f64 {
    let z2 = (x * x + y * y).min(1e300);
    let refl = if y < 0.0 { 2.0 * le.exp() * (1.0 + z2) * EPS * 2.0 } else { 0.0 };
    // first-order formula next to the imaginary axis
    let refl = refl + if y < 0.0 && y >= -7.0 && x.abs() < 1.0000001e-8 * y.abs() { 8.0 * (x * y).powi(2) * le.exp() } else { 0.0 };
    if near_axis(x, y) { 1.2e-6 * w + refl } else { TW * w + refl }
}
const TW: f64 = 1e-14;
fn j_w(s: &A) -> V {
    let (x, y) = (s[0], s[1]);
    if !dom_z(x, y) { return V::Skip("outside the domain"); }
    let (re, im, le) = o::w(x, y);
    if y < 0.0 && le > 690.0 { return V::Skip("overflow"); }
    if y < 0.0 && le > -760.0 && (x * y).abs() > 1e300 { return V::Skip("the phase of exp(-z^2) overflows"); }
    let w = re.d().hypot(im.d());
    if w < 1e-306 { return V::Skip("underflow"); }
    let (a, b) = tri!(call!(p::faddeeva(x, y)));
    let e = re.abs(a).hypot(im.abs(b));
    let t = tol_w(x, y, w, le);
    verdict(e / t, || format!("faddeeva({x:?},{y:?}) = ({a:e},{b:e}), the true value is ({:e},{:e}): off by {e:e}", re.d(), im.d()))
}
/// componentwise, upper half plane
fn j_wc(s: &A) -> V {
    let (x, y) = (s[0], s[1].abs());
    if !dom_z(x, y) { return V::Skip("outside the domain"); }
    let (re, im, _) = o::w(x, y);
    let (a, b) = tri!(call!(p::faddeeva(x, y)));
    let (tr, ti);
    if near_axis(x, y) {
        // Re w = exp(-x^2) + 2y(2xD(x)/sqrt(pi) - 1/sqrt(pi)), Im w = 2 D(x)/sqrt(pi) (D with its own accuracy)
        let e2 = (-x * x).exp();
        tr = (4e-15 + 2.0 * EPS * x * x) * e2 + 2.0 * y * 1e-6 + 1e-320;
        ti = 1.2e-6 * im.d().abs() + 1e-320;
    } else if y <= 7.0 && x.abs() < 1e-8 * y {
        tr = 3e-15 * re.d();
        ti = 3e-15 * im.d().abs() + 4.0 * EPS * x.abs() * (1.0 + 1.0f64.min(1.0 / y)) + 1e-320;
    } else {
        let w = re.d().hypot(im.d());
        tr = TWC * re.d().abs() + 2.0 * EPS * w + 1e-322;
        ti = TWC * im.d().abs() + 2.0 * EPS * w + 1e-322;
    }
    all([acc("Re faddeeva", Ok(a), &re, 0.0, tr), acc("Im faddeeva", Ok(b), &im, 0.0, ti)])
}
const TWC: f64 = 1e-13;
pub fn w01() -> Vec<Clause> {
    vec![cl("faddeeva", "w(z) against the quad-precision Faddeeva function, error relative to |w|", 2, gen_z, j_w).w(3.0),
         cl("faddeeva_parts", "real and imaginary part separately, upper half plane", 2, gen_z, j_wc).w(2.0)]
}
// ---------------------------------------------------------------- W02 laws of the Faddeeva function
fn j_wconj(s: &A) -> V {
    let (x, y) = (s[0], s[1]);
    if !dom_z(x, y) { return V::Skip("outside the domain"); }
    let ((a, b), (c, d)) = (tri!(call!(p::faddeeva(x, y))), tri!(call!(p::faddeeva(-x, y))));
    if !(a.is_finite() && b.is_finite()) { return V::Skip("overflow"); }
    let n = a.hypot(b);
    let le = (y - x) * (y + x);
    verdict((a - c).hypot(b + d) / (1e-15 * n + if y < 0.0 { EPS * 4.0 * (1.0 + (x * x + y * y).min(1e300)) * le.exp() } else { 0.0 } + 1e-320), || format!("w(-conj z) = ({c:e},{d:e}) is not the conjugate of w(z) = ({a:e},{b:e}) at ({x:?},{y:?})"))
}
fn j_wneg(s: &A) -> V {
    let (x, y) = (s[0], s[1]);
    if !dom_z(x, y) || !(x.abs() < 25.0 && y.abs() < 25.0) { return V::Skip("outside the domain"); }
    let ((a, b), (c, d)) = (tri!(call!(p::faddeeva(x, y))), tri!(call!(p::faddeeva(-x, -y))));
    let m = 2.0 * (y * y - x * x).exp();
    let (er, ei) = (m * (2.0 * x * y).cos(), -m * (2.0 * x * y).sin());
    let t = 2.0 * (tol_w(x, -y.abs(), a.hypot(b).max(c.hypot(d)), y * y - x * x));
    verdict((a + c - er).hypot(b + d - ei) / t, || format!("w(z) + w(-z) = ({:e},{:e}), 2 exp(-z^2) = ({er:e},{ei:e}) at ({x:?},{y:?})", a + c, b + d))
}
fn gen_axis(g: &mut Gen) -> A { let s = gen_z(g); [s[0], 0., 0., 0.] }
fn j_axes(s: &A) -> V {
    let x = s[0];
    if !x.is_finite() { return V::Skip("outside the domain"); }
    let (a, b) = tri!(call!(p::faddeeva(x, 0.0)));
    let dw = 2.0 / std::f64::consts::PI.sqrt() * tri!(call!(p::dawson(x)));
    let e = (-x * x).exp();
    let r1 = ((a - e).abs() / ((1e-15 + EPS * 2.0 * x * x) * e + 1e-300)).max((b - dw).abs() / (2e-6 * dw.abs() + 1e-320));
    let (mut r2, mut m2) = (0.0f64, String::new());
    if x > -26.0 {
        let (c, d) = tri!(call!(p::faddeeva(0.0, x)));
        let ex = tri!(call!(p::erfcx(x)));
        if d != 0.0 { return V::Fail(format!("w({x:?} i) = ({c:e},{d:e}) is not real")); }
        r2 = (c - ex).abs() / (ex * 1e-14 + 1e-320);
        m2 = format!("w({x:?} i) = {c:e}, erfcx = {ex:e}");
    }
    verdict(r1.max(r2), || format!("w({x:?}) = ({a:e},{b:e}), exp(-x^2) = {e:e}, 2D/sqrt(pi) = {dw:e}; {m2}"))
}
fn gen_wany(g: &mut Gen) -> A { match g.r.below(3) { 0 => [g.any(), g.any(), 0., 0.], 1 => { let mut s = gen_z(g); let k = g.r.below(2) as usize; s[k] = g.special(); s } _ => [g.special(), g.special(), 0., 0.] } }
fn j_wany(s: &A) -> V {
    let (x, y) = (s[0], s[1]);
    let (a, b) = tri!(call!(p::faddeeva(x, y)));
    if x.is_nan() || y.is_nan() { return must(a.is_nan() || b.is_nan(), || format!("faddeeva({x:?},{y:?}) = ({a:?},{b:?}) for a NaN argument")); }
    if y == f64::INFINITY && x.is_finite() { return must(a == 0.0 && b == 0.0, || format!("faddeeva({x:?},inf) = ({a:?},{b:?})")); }
    if y >= 0.0 && x.abs() < 1e300 && y < 1e300 { return must(a >= 0.0 && a <= 1.0 + 1e-14 && b.abs() <= 0.611 && (b == 0.0 || (b > 0.0) == (x > 0.0)), || format!("faddeeva({x:?},{y:?}) = ({a:?},{b:?}) violates the bounds of the upper half plane")); }
    V::Pass(0.0)
}
pub fn w02() -> Vec<Clause> {
    vec![cl("conjugate", "w(-conj z) = conj w(z)", 2, gen_z, j_wconj),
         cl("reflection", "w(z) + w(-z) = 2 exp(-z^2)", 2, gen_z, j_wneg),
         cl("axes", "w(x) = exp(-x^2) + 2i D(x)/sqrt(pi), w(iy) = erfcx(y)", 1, gen_axis, j_axes),
         cl("bounds_and_special", "bounds in the upper half plane, infinities, NaN, no panic on any bit pattern", 2, gen_wany, j_wany)]
}
