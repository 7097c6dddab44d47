use super::gammas::gen_p;
use crate::common::*;
use crate::engine::{cl, Clause, V};
use crate::gen::{Gen, A};
use crate::rng::ulps;
use crate::{call, oracle as o, tri};
use puruspe as p;

/// a second parameter related to the first
fn related(g: &mut Gen, a: f64) -> f64 { let v = match g.r.below(6) { 0 => a + 1.0, 1 => a + g.r.pick(&[-1.0, 0.5, -0.5, 2.0]), 2 => 1.0 - a, 3 => a * g.r.pick(&[2.0, 0.5, 3.0, 10.0, 0.1]), 4 => a + g.int(40, 6), _ => g.int(200, 10) - a }; if v > 0.0 { v } else { a } }
/// largest ln_gamma involved, in units of which rounding errors of a difference of log-gammas count
fn lgmag(a: f64, b: f64) -> f64 { let s = a + b; s * (1.0 + s.ln().abs()) + a.ln().abs() + b.ln().abs() + 1.0 }
// ---------------------------------------------------------------- B01
fn gen_ab(g: &mut Gen) -> A {
    let (pa, pb) = (g.prev[0], g.prev[1]);
    let one = |g: &mut Gen, q: f64| match g.r.below(7) { 0..=2 => g.real(1e-300, 1e8, 0.0, 20.0, q), 3 => g.r.logu(1e-3, 1e4), 4 => g.r.logu(1e-300, 1e8), 5 => (g.int(4000, 60)).max(1.0), _ => g.real(1e-300, 1e8, 0.5, 3.0, q) };
    let a = one(g, pa);
    let b = match g.r.below(12) { 0 | 1 => a, 2 => g.near(a).abs(), 3 | 4 => related(g, a), _ => one(g, pb) };
    [a, b, 0., 0.]
}
fn dom_ab(a: f64, b: f64) -> bool { a >= 1e-300 && b >= 1e-300 && a <= 1e8 && b <= 1e8 }
pub fn tol_beta(a: f64, b: f64) -> f64 { TB + TBI * EPS * lgmag(a, b) }
const TB: f64 = 9e-10;
fn j_beta(s: &A) -> V {
    let (a, b) = (s[0], s[1]);
    if !dom_ab(a, b) { return V::Skip("outside the domain"); }
    let (r, ln) = o::beta(a, b);
    if ln > 709.5 { return V::Skip("overflow"); }
    let v = tri!(call!(p::beta(a, b)));
    if ln < -740.0 { return must(v >= 0.0 && v <= 1e-320, || format!("beta({a:?},{b:?}) = {v:e}, expected underflow to 0")); }
    acc("beta", Ok(v), &r, tol_beta(a, b), 3e-323)
}
fn j_beta_sym(s: &A) -> V {
    let (a, b) = (s[0], s[1]);
    if !dom_ab(a, b) || o::beta(a, b).1.abs() > 700.0 { return V::Skip("outside the domain"); }
    let (u, v) = (tri!(call!(p::beta(a, b))), tri!(call!(p::beta(b, a))));
    verdict((u - v).abs() / (u * 2.0 * EPS * lgmag(a, b)), || format!("beta({a:?},{b:?}) = {u:e} but beta({b:?},{a:?}) = {v:e}"))
}
fn j_beta_rec(s: &A) -> V {
    // B(a+1,b) = B(a,b) a/(a+b)
    let (a, b) = (s[0], s[1]);
    if !dom_ab(a, b) || (a + 1.0) - 1.0 != a || o::beta(a, b).1.abs() > 690.0 || o::beta(a + 1.0, b).1.abs() > 690.0 { return V::Skip("outside the domain"); }
    let (u, v) = (tri!(call!(p::beta(a, b))), tri!(call!(p::beta(a + 1.0, b))));
    let w = u * (a / (a + b));
    verdict((v - w).abs() / (w * 2.0 * tol_beta(a, b)), || format!("beta(a+1,b) = {v:e} but beta(a,b) a/(a+b) = {w:e}"))
}
fn gen_bad2(g: &mut Gen) -> A { let v = [g.any(), g.any()]; if g.r.chance(0.5) { let s = gen_ab(g); let (x, y) = (g.r.sign(), g.r.sign()); return [s[0] * x, s[1] * y, 0., 0.]; } [v[0], v[1], 0., 0.] }
fn j_beta_panic(s: &A) -> V {
    let (a, b) = (s[0], s[1]);
    let ok = a > 0.0 && b > 0.0;
    if ok && !dom_ab(a, b) { return V::Skip("outside the domain"); }
    let r = call!(p::beta(a, b));
    must(r.is_ok() == ok, || format!("beta({a:?},{b:?}) = {r:?}, the documented panic is expected exactly for non-positive arguments"))
}
pub fn b01() -> Vec<Clause> {
    vec![cl("beta", "beta(a,b) against the quad-precision beta function, relative error", 2, gen_ab, j_beta).w(3.0),
         cl("beta_symmetry", "beta(a,b) = beta(b,a)", 2, gen_ab, j_beta_sym),
         cl("beta_recurrence", "B(a+1,b) = B(a,b) a/(a+b)", 2, gen_ab, j_beta_rec),
         cl("beta_panics", "panics exactly for non-positive arguments", 2, gen_bad2, j_beta_panic).w(0.3)]
}
// ---------------------------------------------------------------- B02, B03
const BMAX: f64 = 1e8;
fn gen_abx(g: &mut Gen) -> A {
    let (pa, pb, px) = (g.prev[0], g.prev[1], g.prev[2]);
    let one = |g: &mut Gen, q: f64| { let v = match g.r.below(9) { 0..=2 => g.real(1e-10, BMAX, 0.0, 12.0, q), 3 => g.r.logu(1e-3, 1e4), 4 => { let m = g.r.pick(&[1e-10, 1e-300]); g.r.logu(m, BMAX) }, 5 => (g.int(4000, 60)).max(1.0), 6 => g.real(1e-10, BMAX, 2900.0, 3100.0, q), 7 => g.real(1e-10, BMAX, 0.1, 5000.0, q), _ => g.lit().abs() }; if v >= 1e-300 && v <= BMAX { v } else { 2.0 } };
    let a = one(g, pa);
    let b = match g.r.below(14) { 0 | 1 => a, 2 => { let v = related(g, a); if v >= 1e-300 && v <= BMAX { v } else { a } } 3 => { let v = g.near(a).abs(); if v >= 1e-300 && v <= BMAX { v } else { a } } _ => one(g, pb) };
    let m = a / (a + b);
    let sd = (a * b / ((a + b) * (a + b) * (a + b + 1.0))).sqrt();
    let x = match g.r.below(10) {
        0..=2 => { let c = g.r.uni(-8.0, 8.0); m + c * sd }
        3 => { let c = g.r.uni(-30.0, 30.0); m + c * sd }
        4 => g.r.f(),
        5 => { let e = g.r.pick(&[(a + 1.0) / (a + 2.0 * b), (a + 1.0) / (a + b + 2.0), m, 0.5]); g.near(e) }
        6 => g.r.logu(1e-300, 1.0),
        7 => 1.0 - g.r.logu(1e-16, 1.0),
        8 => (g.r.below(101) as f64) / 100.0,
        _ => g.real(0.0, 1.0, 0.0, 1.0, px),
    };
    let x = if x.is_finite() { x } else { 0.5 };
    [a, b, if (0.0..=1.0).contains(&x) { x } else { x.abs().fract() }, 0.]
}
fn dom_abx(a: f64, b: f64, x: f64) -> bool { a >= 1e-300 && b >= 1e-300 && a <= BMAX && b <= BMAX && (0.0..=1.0).contains(&x) }
pub fn tol_bi(a: f64, b: f64) -> f64 { TB + TBI * EPS * lgmag(a, b) }
const TBI: f64 = 6.0;
fn j_betai(s: &A) -> V {
    let (a, b, x) = (s[0], s[1], s[2]);
    if !dom_abx(a, b, x) { return V::Skip("outside the domain"); }
    let (r, _) = match o::betai(a, b, x) { Some(v) => v, None => return V::Skip("oracle gave up") };
    acc("betai", call!(p::betai(a, b, x)), &r, 0.0, tol_bi(a, b))
}
fn j_betai_rel(s: &A) -> V {
    // lower tail: relative error
    let (a, b, x) = (s[0], s[1], s[2]);
    if !dom_abx(a, b, x) || !(x < (a + 1.0) / (a + b + 2.0) * 0.999) || x == 0.0 { return V::Skip("not in the lower tail"); }
    if a > 2999.0 && b > 2999.0 { return V::Skip("quadrature: only absolute accuracy"); }
    let (r, _) = match o::betai(a, b, x) { Some(v) => v, None => return V::Skip("oracle gave up") };
    if !(r.d() > 1e-290) { return V::Skip("underflow"); }
    let lx = (a * x.ln()).abs() + (b * (-x).ln_1p()).abs();
    acc("betai", call!(p::betai(a, b, x)), &r, TB + TBI * EPS * (lgmag(a, b) + lx), 0.0)
}
pub fn b02() -> Vec<Clause> {
    vec![cl("betai", "betai(a,b,x) against the quad-precision regularized incomplete beta function, absolute error", 3, gen_abx, j_betai).w(3.0),
         cl("betai_tail", "betai in the lower tail, relative error", 3, gen_abx, j_betai_rel).w(2.0)]
}
fn j_bi_range(s: &A) -> V {
    let (a, b, x) = (s[0], s[1], s[2]);
    if !dom_abx(a, b, x) { return V::Skip("outside the domain"); }
    let v = tri!(call!(p::betai(a, b, x)));
    if x == 0.0 || x == 1.0 { return must(v == x, || format!("betai({a:?},{b:?},{x:?}) = {v:?}")); }
    must((0.0..=1.0).contains(&v), || format!("betai({a:?},{b:?},{x:?}) = {v:?} is not within [0,1]"))
}
fn gen_sym(g: &mut Gen) -> A {
    let mut s = gen_abx(g);
    // 1 - x must be exact
    if s[2] < 0.5 { s[2] = 1.0 - (1.0 - s[2]); }
    s
}
fn j_bi_sym(s: &A) -> V {
    let (a, b, x) = (s[0], s[1], s[2]);
    if !dom_abx(a, b, x) || 1.0 - (1.0 - x) != x { return V::Skip("outside the domain"); }
    let (u, v) = (tri!(call!(p::betai(a, b, x))), tri!(call!(p::betai(b, a, 1.0 - x))));
    verdict((u + v - 1.0).abs() / (2.0 * tol_bi(a, b)), || format!("I_x(a,b) + I_(1-x)(b,a) - 1 = {:e}: {u:e}, {v:e}", u + v - 1.0))
}
fn gen_bmono(g: &mut Gen) -> A {
    let s = gen_abx(g);
    let (a, b, x) = (s[0], s[1], s[2]);
    let sd = (a * b / ((a + b) * (a + b) * (a + b + 1.0))).sqrt();
    let y = match g.r.below(5) { 0 => { let k = 1 + g.r.below(5) as i64; ulps(x, k) } 1 => x * (1.0 + g.r.logu(1e-14, 1e-2)), 2 => x + sd * g.r.logu(1e-3, 5.0), 3 => { let e = g.r.pick(&[(a + 1.0) / (a + 2.0 * b), a / (a + b)]); e } _ => g.r.f() };
    let y = if y.is_finite() { y.clamp(0.0, 1.0) } else { 1.0 };
    [a, b, x.min(y), x.max(y)]
}
fn j_bmono(s: &A) -> V {
    let (a, b, x, y) = (s[0], s[1], s[2], s[3]);
    if !dom_abx(a, b, x) || !dom_abx(a, b, y) || !(x <= y) { return V::Skip("outside the domain"); }
    let (u, v) = (tri!(call!(p::betai(a, b, x))), tri!(call!(p::betai(a, b, y))));
    verdict((u - v).max(0.0) / (2.0 * tol_bi(a, b)), || format!("not monotone: betai({a:?},{b:?},{x:?}) = {u:e} > betai({a:?},{b:?},{y:?}) = {v:e}"))
}
fn j_brec(s: &A) -> V {
    // I_x(a+1,b) = I_x(a,b) - x^a (1-x)^b / (a B(a,b))
    let (a, b, x) = (s[0], s[1], s[2]);
    if !dom_abx(a, b, x) || !dom_abx(a + 1.0, b, x) || (a + 1.0) - 1.0 != a || !(x > 0.0 && x < 1.0) { return V::Skip("outside the domain"); }
    // the increment is x^a (1-x)^b / (a B(a,b)) = density(a+1, b; x) (1-x)/(a+b) ... taken from the oracle
    let d = o::betadens(a, b, x).d() * x * (1.0 - x) / a;
    if !d.is_finite() { return V::Skip("overflow"); }
    let (u, v) = (tri!(call!(p::betai(a, b, x))), tri!(call!(p::betai(a + 1.0, b, x))));
    verdict((u - d - v).abs() / (2.0 * tol_bi(a + 1.0, b)), || format!("I_x(a+1,b) = {v:e} but I_x(a,b) - x^a(1-x)^b/(a B(a,b)) = {:e}", u - d))
}
fn gen_bad3(g: &mut Gen) -> A {
    if g.r.chance(0.5) { let mut s = gen_abx(g); let k = g.r.below(3) as usize; s[k] = match g.r.below(4) { 0 => -s[k], 1 => g.special(), 2 => 1.0 + g.r.logu(1e-16, 10.0), _ => f64::NAN }; return s; }
    [g.any(), g.any(), g.any(), 0.]
}
fn j_bpanic(s: &A) -> V {
    let (a, b, x) = (s[0], s[1], s[2]);
    let ok = a > 0.0 && b > 0.0 && (0.0..=1.0).contains(&x);
    if ok && !dom_abx(a, b, x) { return V::Skip("outside the domain"); }
    let r = call!(p::betai(a, b, x));
    must(r.is_ok() == ok, || format!("betai({a:?},{b:?},{x:?}) = {r:?}, the documented panic is expected exactly outside a > 0, b > 0, 0 <= x <= 1"))
}
pub fn b03() -> Vec<Clause> {
    vec![cl("range", "betai within [0,1], equal to x at 0 and 1", 3, gen_abx, j_bi_range).w(2.0),
         cl("symmetry", "I_x(a,b) + I_(1-x)(b,a) = 1", 3, gen_sym, j_bi_sym).w(2.0),
         cl("monotone", "betai does not decrease with x", 4, gen_bmono, j_bmono).w(2.0),
         cl("recurrence", "I_x(a+1,b) = I_x(a,b) - x^a (1-x)^b / (a B(a,b))", 3, gen_abx, j_brec),
         cl("panics", "panics exactly outside the domain", 3, gen_bad3, j_bpanic).w(0.5)]
}
// ---------------------------------------------------------------- B04
fn gen_pab(g: &mut Gen) -> A {
    let (pp, pa, pb) = (g.prev[0], g.prev[1], g.prev[2]);
    let one = |g: &mut Gen, q: f64| { let v = match g.r.below(7) { 0..=2 => g.real(0.1, 1e4, 0.0, 12.0, q), 3 => g.r.logu(0.1, 1e4), 4 => (g.int(1000, 60)).max(1.0), 5 => g.real(0.1, 1e4, 2500.0, 3500.0, q), _ => g.lit().abs() }; if v >= 0.1 && v <= 1e4 { v } else { 1.0 } };
    if g.r.chance(0.15) {
        let mut w = |g: &mut Gen| match g.r.below(4) { 0 => g.r.logu(1e-4, 0.1), 1 => g.r.logu(1e4, 1e6), _ => g.r.logu(1e-4, 1e6) };
        let (a, b) = (w(g), w(g));
        return [gen_p(g, pp), a, b, 0.];
    }
    let a = one(g, pa);
    let b = if g.r.chance(0.1) { a } else if g.r.chance(0.06) { related(g, a).clamp(1e-4, 1e6) } else { one(g, pb) };
    [gen_p(g, pp), a, b, 0.]
}
fn j_invb(s: &A) -> V {
    let (pp, a, b) = (s[0], s[1], s[2]);
    if !(a >= 1e-4 && b >= 1e-4 && a <= 1e6 && b <= 1e6 && pp >= 1e-12 && pp <= 1.0 - 1e-12) { return V::Skip("outside the domain"); }
    let x = tri!(call!(p::invbetai(pp, a, b)));
    if !(0.0..=1.0).contains(&x) { return V::Fail(format!("invbetai({pp:?},{a:?},{b:?}) = {x:?}")); }
    let (r, _) = match o::betai(a, b, x) { Some(v) => v, None => return V::Skip("oracle gave up") };
    // x is a double: accept p between the values at the neighbours of x
    let d = if x < 1e-290 { 1e-290 } else if x > 1.0 - 64.0 * EPS { 4096.0 * EPS } else { 4.0 * (ulps(x, 1) - x).max(0.5 * EPS * x) };
    let side = |y: f64| o::betai(a, b, y.clamp(0.0, 1.0)).map(|v| v.0.d());
    let (lo, hi) = match (side(x - d), side(x + d)) { (Some(l), Some(h)) => (l, h), _ => return V::Skip("oracle gave up") };
    let e = (lo - pp).max(pp - hi).max(0.0);
    let mut t = tol_invb(a, b) + if pp > 1.0 - 1e-8 { 2e-9 } else { 0.0 };
    if x > 0.0 && x < (a + 1.0) / (a + b + 2.0) {
        // the lower tail, where betai keeps its relative accuracy
        t = t.min(pp * (2e-9 + TBI * EPS * (lgmag(a, b) + pp.ln().abs() + a * x.ln().abs() + b * (1.0 - x).ln().abs())));
    }
    verdict(e / t, || format!("x = invbetai({pp:?},{a:?},{b:?}) = {x:e}, but I_x(a,b) = {:e}: off by {e:e}", r.d()))
}
fn tol_invb(a: f64, b: f64) -> f64 { 2e-9 + TBI * EPS * lgmag(a, b) }
fn gen_bends(g: &mut Gen) -> A { [g.r.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY]), g.r.logu(1e-4, 1e6), g.r.logu(1e-4, 1e6), 0.] }
fn j_bends(s: &A) -> V {
    let (pp, a, b) = (s[0], s[1], s[2]);
    if pp > 0.0 && pp < 1.0 || pp.is_nan() || !(a > 0.0 && b > 0.0) { return V::Skip("inner point"); }
    let x = tri!(call!(p::invbetai(pp, a, b)));
    must(x == if pp <= 0.0 { 0.0 } else { 1.0 }, || format!("invbetai({pp:?},{a:?},{b:?}) = {x}"))
}
fn gen_bmi(g: &mut Gen) -> A { let s = gen_pab(g); let q = match g.r.below(2) { 0 => s[0] * (1.0 + g.r.logu(1e-6, 0.1)), _ => g.r.f() }.clamp(0.0, 1.0); [s[0].min(q), s[0].max(q), s[1], s[2]] }
fn j_bmi(s: &A) -> V {
    let (p0, p1, a, b) = (s[0], s[1], s[2], s[3]);
    if !(a >= 1e-4 && b >= 1e-4 && a <= 1e6 && b <= 1e6 && p0 >= 1e-12 && p1 <= 1.0 - 1e-12) || !(p1 - p0 > 4.0 * tol_invb(a, b) + 1e-8) { return V::Skip("closer than the tolerance"); }
    let (x0, x1) = (tri!(call!(p::invbetai(p0, a, b))), tri!(call!(p::invbetai(p1, a, b))));
    must(x0 <= x1, || format!("not monotone: invbetai({p0:?},{a:?},{b:?}) = {x0:e} > invbetai({p1:?},..) = {x1:e}"))
}
pub fn b04() -> Vec<Clause> {
    vec![cl("invbetai", "I_x(a,b) = p for x = invbetai(p,a,b), with I from the quad-precision oracle", 3, gen_pab, j_invb).w(4.0),
         cl("invbetai_monotone", "invbetai is monotone in p", 4, gen_bmi, j_bmi),
         cl("invbetai_ends", "p <= 0 gives 0, p >= 1 gives 1", 3, gen_bends, j_bends).w(0.2)]
}
