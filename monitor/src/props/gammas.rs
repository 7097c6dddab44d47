use crate::common::*;
use crate::engine::{cl, Clause, V};
use crate::gen::{Gen, A};
use crate::{call, oracle as o, tri};
use puruspe as p;

// ---------------------------------------------------------------- G01
fn gen_gamma(g: &mut Gen) -> A {
    let pr = g.prev[0];
    let x = match g.r.below(12) {
        0..=4 => g.real(-190.0, 172.0, -25.0, 172.0, pr),
        5 => { let n = g.r.below(185) as f64; -n + g.r.sign() * g.r.logu(1e-17, 0.5) } // near the poles
        6 => g.r.uni(165.0, 171.7),                                                  // near the overflow
        7 => g.r.uni(-186.0, -165.0),                                                // near the underflow
        8 => g.real(1e-308, 30.0, 0.0, 5.0, pr),
        9 => g.r.logu(5e-324, 1.0) * g.r.sign(),
        10 => { let n = g.r.below(172) as f64; g.near(n) }
        _ => g.real(-190.0, 172.0, 1.0, 60.0, pr),
    };
    [x, 0., 0., 0.]
}
fn is_int(x: f64) -> bool { x == x.trunc() }
fn j_gamma(a: &A) -> V {
    let x = a[0];
    if !x.is_finite() || x > 175.0 || x < -200.0 { return V::Skip("outside the range of representable values"); }
    if x <= 0.0 && is_int(x) { return V::Skip("pole"); }
    acc("gamma", call!(p::gamma(x)), &o::gamma(x), TG, 3e-323)
}
pub const TG: f64 = 1.2e-14;
fn gen_rec(g: &mut Gen) -> A { let pr = g.prev[0]; [g.real(-170.0, 170.0, -20.0, 100.0, pr), 0., 0., 0.] }
fn j_gamma_rec(a: &A) -> V {
    // Gamma(z+1) = z Gamma(z), where z + 1 is exact
    let x = a[0];
    if !(x.abs() <= 170.0) || x == 0.0 || (x < 0.0 && is_int(x)) || x.abs() < 1e-300 { return V::Skip("outside the domain"); }
    let y = x + 1.0;
    if y - 1.0 != x || y == 0.0 || (y < 0.0 && is_int(y)) { return V::Skip("z + 1 is not exact"); }
    let (g0, g1) = (tri!(call!(p::gamma(x))), tri!(call!(p::gamma(y))));
    let want = x * g0;
    if want.is_infinite() || want.abs() < 1e-300 || g0.abs() < 1e-300 { return V::Skip("over- or underflow"); }
    verdict((g1 / want - 1.0).abs() / (2.2 * TG), || format!("gamma(z+1) = {g1:e} but z gamma(z) = {want:e}"))
}
pub fn g01() -> Vec<Clause> {
    vec![cl("gamma", "gamma(z) against the quad-precision gamma function", 1, gen_gamma, j_gamma).w(3.0),
         cl("gamma_recurrence", "gamma(z+1) = z gamma(z)", 1, gen_rec, j_gamma_rec)]
}
// ---------------------------------------------------------------- G02
fn gen_special(g: &mut Gen) -> A {
    let x = match g.r.below(8) {
        7 => match g.r.below(3) { 0 => g.near(171.62437695), 1 => 171.6243769563027 - g.r.logu(1e-13, 0.6), _ => g.r.uni(171.0, 171.65) },
        0 => -(g.r.below(400) as f64),
        1 => -g.r.logu(1.0, 1e300).floor(),
        2 => g.special(),
        3 => g.r.logu(171.7, 1e308),
        4 => -(g.r.logu(185.0, 4e15)),
        5 => g.r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, 5e-324, -5e-324]),
        _ => { let n = g.r.below(30) as f64; n }
    };
    [x, 0., 0., 0.]
}
fn j_special(a: &A) -> V {
    let x = a[0];
    let v = tri!(call!(p::gamma(x)));
    let d = |ok: bool, w: &str| must(ok, || format!("gamma({x:?}) = {v:?}, expected {w}"));
    if x.is_nan() { return d(v.is_nan(), "NaN"); }
    if x == 0.0 { return d(v.is_infinite() && v.is_sign_positive() == x.is_sign_positive(), "infinity with the sign of the zero"); }
    if x == f64::INFINITY { return d(v == f64::INFINITY, "inf"); }
    if x == f64::NEG_INFINITY { return d(v.is_nan(), "NaN"); }
    if x < 0.0 && is_int(x) { return d(v.is_nan(), "NaN (pole)"); }
    if x > 171.6244 { return d(v == f64::INFINITY, "inf"); }
    if x > 171.0 && x <= 171.62437695 { return match d(v.is_finite(), "a finite value") { V::Fail(e) => V::Fail(e), _ => acc("gamma", Ok(v), &o::gamma(x), TG, 0.0) }; }
    if x < -190.0 { return d(v == 0.0, "0"); }
    if x > 0.0 && is_int(x) && x <= 171.0 {
        let r = o::factorial(x as u64 - 1);
        if x <= 23.0 { return verdict(r.rel(v) / (4.0 * EPS), || format!("gamma({x}) = {v:e}, ({x}-1)! = {:e}", r.d())); }
        return acc("gamma", Ok(v), &r, TG, 0.0);
    }
    if x.abs() < 2.3e-308 { let w = 1.0 / x; return d(v == w || ((v - w) / w).abs() < 4.0 * EPS, "1/z"); }
    V::Skip("not special")
}
fn gen_fact(g: &mut Gen) -> A { [if g.r.chance(0.85) { g.r.below(180) as f64 } else if g.r.chance(0.7) { g.int(5000, 500) } else { g.r.logu(200.0, 3e6).floor() }, 0., 0., 0.] }
fn j_fact(a: &A) -> V {
    let n = a[0].abs().round();
    if !(n <= 1e7) { return V::Skip("too long"); }
    let n = n as usize;
    let v = tri!(call!(p::utils::factorial(n)));
    if n > 170 { return must(v == f64::INFINITY, || format!("factorial({n}) = {v}, expected inf")); }
    let r = o::factorial(n as u64);
    if n <= 22 { return must(r.abs(v) == 0.0, || format!("factorial({n}) = {v} is not the exact {:e}", r.d())); }
    acc("factorial", Ok(v), &r, 5e-15, 0.0)
}
fn gen_fg(g: &mut Gen) -> A { [g.r.below(170) as f64, 0., 0., 0.] }
fn j_fg(a: &A) -> V {
    let n = a[0].abs().round();
    if !(n <= 169.0) { return V::Skip("overflow"); }
    let (f, g) = (tri!(call!(p::utils::factorial(n as usize))), tri!(call!(p::gamma(n + 1.0))));
    verdict((g / f - 1.0).abs() / (TG + 5e-15), || format!("factorial({n}) = {f:e} but gamma({n}+1) = {g:e}"))
}
pub fn g02() -> Vec<Clause> {
    vec![cl("gamma_special", "poles, zeros, infinities, NaN, overflow, underflow and integer arguments of gamma", 1, gen_special, j_special),
         cl("factorial", "factorial(n) exact up to 22!, accurate up to 170!, infinite above", 1, gen_fact, j_fact),
         cl("factorial_gamma", "factorial(n) = gamma(n+1)", 1, gen_fg, j_fg)]
}
// ---------------------------------------------------------------- G03
fn gen_lg(g: &mut Gen) -> A {
    let pr = g.prev[0];
    let x = match g.r.below(8) { 0..=2 => g.real(5e-324, 1e305, 0.0, 20.0, pr), 3 => g.real(5e-324, 1e305, 1.0, 200.0, pr), 4 => g.r.logu(5e-324, 1.0), 5 => g.r.logu(1.0, 1e305), 6 => { let e = g.r.pick(&[1.0, 2.0]); g.near(e) } _ => g.real(5e-324, 1e305, 1e-3, 3.0, pr) };
    [x, 0., 0., 0.]
}
pub const TLA: f64 = 6e-10; // absolute
pub const TLR: f64 = 4e-15; // relative
fn j_lg(a: &A) -> V {
    let x = a[0];
    if !(x > 0.0 && x <= 1e305) { return V::Skip("outside the domain"); }
    acc("ln_gamma", call!(p::ln_gamma(x)), &o::lgamma(x), TLR, TLA)
}
fn gen_lgr(g: &mut Gen) -> A { let pr = g.prev[0]; [g.real(1e-5, 1e6, 0.01, 170.0, pr), 0., 0., 0.] }
fn j_lgr(a: &A) -> V {
    let x = a[0];
    if !(x >= 1e-5 && x <= 1e6) { return V::Skip("outside the domain"); }
    let y = x + 1.0;
    if y - 1.0 != x { return V::Skip("z + 1 is not exact"); }
    let (l0, l1) = (tri!(call!(p::ln_gamma(x))), tri!(call!(p::ln_gamma(y))));
    let e = (l1 - l0 - x.ln()).abs() / (2.0 * TLA + TLR * (l1.abs() + l0.abs()));
    verdict(e, || format!("ln_gamma(z+1) = {l1:e} but ln_gamma(z) + ln z = {:e}", l0 + x.ln()))
}
fn gen_lgg(g: &mut Gen) -> A { let pr = g.prev[0]; [g.real(1e-300, 171.0, 0.0, 171.0, pr), 0., 0., 0.] }
fn j_lgg(a: &A) -> V {
    let x = a[0];
    if !(x >= 1e-300 && x <= 171.0) { return V::Skip("outside the domain"); }
    let (l, g) = (tri!(call!(p::ln_gamma(x))), tri!(call!(p::gamma(x))).ln());
    verdict((l - g).abs() / (TLA + TLR * l.abs() + 1e-13), || format!("ln_gamma(z) = {l:e} but ln(gamma(z)) = {g:e}"))
}
fn gen_lgs(g: &mut Gen) -> A { [g.r.pick(&[f64::INFINITY, f64::NAN, 1e306, f64::MAX, 5e-324, f64::MIN_POSITIVE]), 0., 0., 0.] }
fn j_lgs(a: &A) -> V {
    let x = a[0];
    let v = tri!(call!(p::ln_gamma(x)));
    if x.is_nan() { return must(v.is_nan(), || format!("ln_gamma(NaN) = {v}")); }
    if x == f64::INFINITY { return must(v == x, || format!("ln_gamma(inf) = {v}")); }
    if x > 1e305 { return must(v > 1e307, || format!("ln_gamma({x:e}) = {v}")); }
    must((v + x.ln()).abs() < 1e-8, || format!("ln_gamma({x:e}) = {v}"))
}
pub fn g03() -> Vec<Clause> {
    vec![cl("ln_gamma", "ln_gamma(z), z > 0, against the quad-precision log-gamma", 1, gen_lg, j_lg).w(3.0),
         cl("ln_gamma_recurrence", "ln_gamma(z+1) = ln_gamma(z) + ln z", 1, gen_lgr, j_lgr),
         cl("ln_gamma_vs_gamma", "ln_gamma(z) = ln(gamma(z))", 1, gen_lgg, j_lgg),
         cl("ln_gamma_special", "infinity, NaN, extremes", 1, gen_lgs, j_lgs).w(0.05)]
}
// ---------------------------------------------------------------- G04, G05
const AMAX: f64 = 1e7;
fn gen_ax(g: &mut Gen) -> A {
    let (pa, px) = (g.prev[0], g.prev[1]);
    let a = match g.r.below(8) { 0..=2 => g.real(1e-300, AMAX, 0.0, 12.0, pa), 3 => g.real(1e-300, AMAX, 50.0, 150.0, pa), 4 => g.real(1e-5, AMAX, 0.1, 1000.0, pa), 5 => g.r.logu(1e-3, 1e4), 6 => g.r.logu(1e-300, AMAX), _ => if g.r.chance(0.8) { g.near(pa).abs() } else { g.int(2000, 200) } };
    let a = if a > 0.0 && a <= AMAX { a } else { 1.5 };
    let x = match g.r.below(14) {
        0..=2 => { let c = g.r.uni(-8.0, 8.0); a + c * a.sqrt() }
        3 => { let c = g.r.uni(-40.0, 22.0); a + c * a.sqrt() }
        4 => { let l = g.lit(); a * l }
        5 => { let l = g.lit(); a + l }
        6 => { let l = g.lit(); let v = a + l * (a.sqrt() + 1.0); g.near(v) }
        7 => a * g.r.logu(1e-3, 10.0),
        8 => g.r.logu(1e-300, 1.0),
        9 => g.near(a),
        10 => { let e = g.r.pick(&[a + 1.0, 0.2 * a, a - 1.0, a + 20.0 * (a.sqrt() + 1.0), a * EPS]); g.near(e) }
        11 => { let e = g.r.pick(&[100.0, 1.0, 0.5]); g.real(0.0, 1e9, 0.0, e, px) }
        12 => { let m = a + 5.0; g.r.uni(0.0, m) }
        _ => g.real(0.0, 1e300, 0.0, 50.0, px),
    };
    [a, x.abs(), 0., 0.]
}
pub fn dom_ax(a: f64, x: f64) -> bool { a >= 1e-300 && a <= AMAX && x >= 0.0 && x < f64::INFINITY }
/// tolerance of P and Q: absolute part; relative part follows from ln_gamma's error
pub fn tol_pq(a: f64, _x: f64) -> f64 { 6e-10 + TQ * EPS * a * (2.0 + a.ln().abs()) }
const TQ: f64 = 2.0;
fn j_pq(s: &A) -> V {
    let (a, x) = (s[0], s[1]);
    if !dom_ax(a, x) { return V::Skip("outside the domain"); }
    // far outside the bulk the reference is 0 or 1 to more than all digits
    let far = x > a + 60.0 * (a.sqrt() + 1.0);
    let (rp, rq) = if far { (o::Q::from(1.0), o::Q::from(0.0)) } else { match o::gammapq(a, x) { Some(v) => v, None => return V::Skip("oracle gave up") } };
    let t = tol_pq(a, x);
    all([acc("gammp", call!(p::gammp(a, x)), &rp, 0.0, t), acc("gammq", call!(p::gammq(a, x)), &rq, 0.0, t)])
}
fn j_prel(s: &A) -> V {
    // relative accuracy of P in the lower tail
    let (a, x) = (s[0], s[1]);
    if !dom_ax(a, x) || x > a || x == 0.0 { return V::Skip("not in the lower tail"); }
    let (rp, _) = match o::gammapq(a, x) { Some(v) => v, None => return V::Skip("oracle gave up") };
    if !(rp.d() > 1e-280) { return V::Skip("underflow"); }
    let lt = rp.d().ln().abs() + a + x;
    if a >= 100.0 && x >= 0.2 * a && rp.d() < 1e-15 { return V::Skip("quadrature: only absolute accuracy"); }
    acc("gammp", call!(p::gammp(a, x)), &rp, 1e-9 + 2.0 * EPS * lt * (2.0 + a.ln().abs()), 0.0)
}
fn j_qrel(s: &A) -> V {
    // relative accuracy of Q in the upper tail, as far as gammq does not announce 0
    let (a, x) = (s[0], s[1]);
    if !dom_ax(a, x) || x < a + 1.0 || x > a + 20.0 * (a.sqrt() + 1.0) * (1.0 - 1e-9) { return V::Skip("not in the upper tail"); }
    let (_, rq) = match o::gammapq(a, x) { Some(v) => v, None => return V::Skip("oracle gave up") };
    if !(rq.d() > 1e-280) { return V::Skip("underflow"); }
    let lt = rq.d().ln().abs() + a + x;
    acc("gammq", call!(p::gammq(a, x)), &rq, if a < 100.0 { 1e-9 } else { 4e-9 } + 2.0 * EPS * lt * (2.0 + a.ln().abs()), 0.0)
}
pub fn g04() -> Vec<Clause> {
    vec![cl("gammpq", "gammp and gammq against the quad-precision regularized incomplete gamma functions (absolute error)", 2, gen_ax, j_pq).w(3.0),
         cl("gammp_tail", "gammp in the lower tail, relative error", 2, gen_ax, j_prel).w(2.0),
         cl("gammq_tail", "gammq in the upper tail, relative error", 2, gen_ax, j_qrel).w(2.0)]
}
fn j_sum(s: &A) -> V {
    let (a, x) = (s[0], s[1]);
    if !dom_ax(a, x) { return V::Skip("outside the domain"); }
    let (pv, qv) = (tri!(call!(p::gammp(a, x))), tri!(call!(p::gammq(a, x))));
    if !(0.0..=1.0).contains(&pv) || !(0.0..=1.0).contains(&qv) { return V::Fail(format!("P = {pv:?}, Q = {qv:?} not within [0,1]")); }
    if x == 0.0 && (pv != 0.0 || qv != 1.0) { return V::Fail(format!("P(a,0) = {pv}, Q(a,0) = {qv}")); }
    verdict((pv + qv - 1.0).abs() / 1e-14, || format!("P + Q - 1 = {:e} (P = {pv:e}, Q = {qv:e})", pv + qv - 1.0))
}
fn gen_mono(g: &mut Gen) -> A {
    let s = gen_ax(g);
    let d = match g.r.below(6) { 0 => { let k = 1 + g.r.below(4) as i64; crate::rng::ulps(s[1], k) } 1 => s[1] * (1.0 + g.r.logu(1e-15, 1e-3)), 2 => s[1] + g.r.logu(1e-3, 10.0), 3 => s[1] + s[0].sqrt() * g.r.logu(1e-3, 3.0), 4 => { let e = g.r.pick(&[s[0] + 1.0, 0.2 * s[0], s[0] + 20.0 * (s[0].sqrt() + 1.0), s[0]]); e } _ => s[1] * g.r.logu(1.0, 3.0) };
    [s[0], s[1].min(d), s[1].max(d), 0.]
}
fn j_mono(s: &A) -> V {
    let (a, x0, x1) = (s[0], s[1], s[2]);
    if !dom_ax(a, x0) || !dom_ax(a, x1) || !(x0 <= x1) { return V::Skip("outside the domain"); }
    let (p0, p1, q0, q1) = (tri!(call!(p::gammp(a, x0))), tri!(call!(p::gammp(a, x1))), tri!(call!(p::gammq(a, x0))), tri!(call!(p::gammq(a, x1))));
    let t = 2.0 * tol_pq(a, x1);
    verdict((p0 - p1).max(q1 - q0).max(0.0) / t, || format!("not monotone in x: P({a:?},{x0:?}) = {p0:e} > P({a:?},{x1:?}) = {p1:e} (Q {q0:e}, {q1:e})"))
}
fn gen_monoa(g: &mut Gen) -> A {
    let s = gen_ax(g);
    let b = match g.r.below(4) { 0 => s[0] * (1.0 + g.r.logu(1e-12, 1e-2)), 1 => s[0] + g.r.logu(1e-3, 5.0), 2 => s[0] * g.r.uni(1.0, 2.0), _ => 100.0 };
    [s[0].min(b), s[0].max(b), s[1], 0.]
}
fn j_monoa(s: &A) -> V {
    let (a0, a1, x) = (s[0], s[1], s[2]);
    if !dom_ax(a0, x) || !dom_ax(a1, x) || !(a0 <= a1) { return V::Skip("outside the domain"); }
    let (p0, p1) = (tri!(call!(p::gammp(a0, x))), tri!(call!(p::gammp(a1, x))));
    verdict((p1 - p0).max(0.0) / (2.0 * tol_pq(a1, x)), || format!("P increases with a: P({a0:?},{x:?}) = {p0:e} < P({a1:?},{x:?}) = {p1:e}"))
}
fn gen_bad_ax(g: &mut Gen) -> A { let v = [g.any(), g.any()]; if g.r.chance(0.3) { let s = gen_ax(g); return [s[0], -s[1], 0., 0.]; } if g.r.chance(0.3) { let s = gen_ax(g); return [-s[0], s[1], 0., 0.]; } [v[0], v[1], 0., 0.] }
fn j_panics(s: &A) -> V {
    let (a, x) = (s[0], s[1]);
    let bad = !(x >= 0.0 && a > 0.0);
    if !bad && !(dom_ax(a, x) || x == f64::INFINITY && a <= AMAX) { return V::Skip("outside the domain"); }
    let (rp, rq) = (call!(p::gammp(a, x)), call!(p::gammq(a, x)));
    if bad { return must(rp.is_err() && rq.is_err(), || format!("gammp({a:?},{x:?}) = {rp:?}, gammq = {rq:?} instead of the documented panic")); }
    let (pv, qv) = (tri!(rp), tri!(rq));
    if x == f64::INFINITY { return must(pv == 1.0 && qv == 0.0, || format!("P(a,inf) = {pv}, Q(a,inf) = {qv}")); }
    must((0.0..=1.0).contains(&pv) && (0.0..=1.0).contains(&qv), || format!("P = {pv}, Q = {qv}"))
}
fn j_arec(s: &A) -> V {
    // P(a+1,x) = P(a,x) - x^a e^-x / Gamma(a+1)
    let (a, x) = (s[0], s[1]);
    if !(a >= 1e-8 && a <= 1e7) || !dom_ax(a, x) || x == 0.0 || (a + 1.0) - 1.0 != a { return V::Skip("outside the domain"); }
    let d = o::gammadens(a + 1.0, x).d();
    let (p0, p1) = (tri!(call!(p::gammp(a, x))), tri!(call!(p::gammp(a + 1.0, x))));
    verdict((p0 - d - p1).abs() / (2.0 * tol_pq(a + 1.0, x)), || format!("P(a+1,x) = {p1:e} but P(a,x) - x^a e^-x/Gamma(a+1) = {:e}", p0 - d))
}
pub fn g05() -> Vec<Clause> {
    vec![cl("sum_and_range", "P + Q = 1, both within [0,1], P(a,0) = 0", 2, gen_ax, j_sum).w(2.0),
         cl("monotone_x", "gammp does not decrease and gammq does not increase with x", 3, gen_mono, j_mono).w(2.0),
         cl("monotone_a", "gammp does not increase with a", 3, gen_monoa, j_monoa),
         cl("recurrence_a", "P(a+1,x) = P(a,x) - x^a e^-x / Gamma(a+1)", 2, gen_ax, j_arec),
         cl("panics", "the documented panics, and only those; x = infinity", 2, gen_bad_ax, j_panics).w(0.5)]
}
// ---------------------------------------------------------------- G06
fn gen_pa(g: &mut Gen) -> A {
    let (pp, pa) = (g.prev[0], g.prev[1]);
    if g.r.chance(0.08) { let a = if g.r.chance(0.5) { g.r.logu(1e-6, 1e-2) } else { g.r.logu(1e5, 1e7) }; return [gen_p(g, pp), a, 0., 0.]; }
    let a = match g.r.below(6) { 0 | 1 => g.real(1e-3, 1e5, 0.0, 20.0, pa), 2 => g.real(0.01, 1e5, 50.0, 150.0, pa), 3 => g.r.logu(0.01, 1e5), 4 => g.int(1000, 120).max(1.0), _ => { let v = g.lit().abs(); if v >= 0.01 && v <= 1e5 { v } else { 1.0 } } };
    let p = gen_p(g, pp);
    [p, a, 0., 0.]
}
pub fn gen_p(g: &mut Gen, prev: f64) -> f64 {
    let p = match g.r.below(8) { 0..=2 => g.r.f(), 3 => { let m = g.r.pick(&[1e-12, 1e-100]); g.r.logu(m, 1.0) }, 4 => 1.0 - g.r.logu(1e-15, 1.0), 5 => g.real(0.0, 1.0, 0.0, 1.0, prev), 6 => (g.r.below(1001) as f64) / 1000.0, _ => g.near(0.5) };
    p.clamp(0.0, 1.0)
}
fn j_invg(s: &A) -> V {
    let (pp, a) = (s[0], s[1]);
    if !(a >= 1e-6 && a <= 1e7) { return V::Skip("outside the domain"); }
    if pp <= 0.0 || pp >= 1.0 { return V::Skip("end points"); }
    if !(pp >= 1e-100 && pp <= 1.0 - 1e-15) { return V::Skip("outside the domain"); }
    let x = tri!(call!(p::invgammp(pp, a)));
    if !(x >= 0.0 && x.is_finite()) { return V::Fail(format!("invgammp({pp:?},{a:?}) = {x:?}")); }
    if x < 1e-280 {
        // the true quantile is (p Gamma(a+1))^(1/a) here
        let lx = (pp.ln() + o::lgamma(a + 1.0).d()) / a;
        if lx < -600.0 { return V::Pass(0.0); }
    }
    let (rp, rq) = match o::gammapq(a, x) { Some(v) => v, None => return V::Skip("oracle gave up") };
    let e = rp.abs(pp);
    let mut t = tol_inv(a, pp);
    if pp >= if a <= 1.0 { 1e-100 } else if a < 100.0 { 1e-45 } else { 1e-13 } && x <= a {
        // the lower tail, where gammp keeps its relative accuracy
        t = t.min(pp * (2e-9 + TQ * EPS * (pp.ln().abs() + a + x) * (2.0 + a.ln().abs())));
    }
    verdict(e / t, || format!("x = invgammp({pp:?},{a:?}) = {x:e}, but P(a,x) = {:e} (Q = {:e}): off by {e:e}", rp.d(), rq.d()))
}
pub fn tol_inv(a: f64, pp: f64) -> f64 { 1e-9 * pp.max(1e-3) + TQ * EPS * a * (2.0 + a.ln().abs()) }
fn gen_ends(g: &mut Gen) -> A { [g.r.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY, -1e-300]), if g.r.chance(0.2) { -g.r.logu(1e-3, 1e3) } else if g.r.chance(0.1) { g.r.pick(&[0.0, -0.0, f64::NAN]) } else { g.r.logu(0.01, 1e5) }, 0., 0.] }
fn j_ends(s: &A) -> V {
    let (pp, a) = (s[0], s[1]);
    if pp > 0.0 && pp < 1.0 || pp.is_nan() { return V::Skip("inner point"); }
    let r = call!(p::invgammp(pp, a));
    if !(a > 0.0) { return must(r.is_err(), || format!("invgammp({pp:?},{a:?}) = {r:?} instead of the documented panic")); }
    if !(a <= 1e6) { return V::Skip("outside the domain"); }
    let x = tri!(r);
    if pp <= 0.0 { return must(x == 0.0, || format!("invgammp({pp:?},{a:?}) = {x}, expected 0")); }
    // a finite upper bound beyond which P is 1 to all digits
    must(x.is_finite() && x >= a + 20.0 * a.sqrt() && call!(p::gammp(a, x)) == Ok(1.0), || format!("invgammp({pp:?},{a:?}) = {x}, expected a large finite x with P(a,x) = 1"))
}
fn gen_monoi(g: &mut Gen) -> A { let s = gen_pa(g); let q = match g.r.below(3) { 0 => s[0] * (1.0 + g.r.logu(1e-6, 0.1)), 1 => g.r.f(), _ => s[0] + g.r.logu(1e-5, 0.3) }.clamp(0.0, 1.0); [s[0].min(q), s[0].max(q), s[1], 0.] }
fn j_monoi(s: &A) -> V {
    let (p0, p1, a) = (s[0], s[1], s[2]);
    if !(a >= 1e-4 && a <= 1e7) || !(p0 >= 1e-12 && p1 <= 1.0 - 1e-7) || p1 - p0 <= tol_inv(a, p0) + tol_inv(a, p1) { return V::Skip("closer than the tolerance"); }
    let (x0, x1) = (tri!(call!(p::invgammp(p0, a))), tri!(call!(p::invgammp(p1, a))));
    if x1 < 1e-280 { return V::Skip("underflow"); }
    must(x0 <= x1, || format!("not monotone: invgammp({p0:?},{a:?}) = {x0:e} > invgammp({p1:?},{a:?}) = {x1:e}"))
}
pub fn g06() -> Vec<Clause> {
    vec![cl("invgammp", "P(a, invgammp(p, a)) = p, with P from the quad-precision oracle", 2, gen_pa, j_invg).w(4.0),
         cl("invgammp_monotone", "invgammp is monotone in p", 3, gen_monoi, j_monoi),
         cl("invgammp_ends", "p <= 0, p >= 1 and the documented panic", 2, gen_ends, j_ends).w(0.3)]
}
