use crate::common::*;
use crate::engine::{cl, Clause, V};
use crate::gen::{Gen, A};
use crate::oracle::Q;
use crate::rng::ulps;
use crate::{call, oracle as o, tri};
use puruspe as p;

fn hyp(a: &Q, b: &Q) -> f64 { a.d().hypot(b.d()) }
/// largest of two magnitudes that may overflow f64, by base-2 logarithms
fn l2(a: &Q) -> f64 { a.log2() }

/// x below nu at which Y_nu (or K_nu) is about to overflow and J_nu (I_nu) to underflow
fn edge(g: &mut Gen, nu: f64) -> f64 {
    let t = if g.r.chance(0.7) { g.r.uni(695.0, 712.0) } else { g.r.uni(500.0, 760.0) };
    let modified = g.r.chance(0.5);
    let ln = |x: f64| if modified { ln_ik(nu, x).1 } else { let a = (nu / x).acosh(); nu * (a - a.tanh()) - 0.5 * (std::f64::consts::FRAC_PI_2 * nu * a.tanh()).ln() };
    let (mut lo, mut hi) = (-700.0f64, nu.ln());
    for _ in 0..50 { let m = 0.5 * (lo + hi); if ln(m.exp()) > t { lo = m } else { hi = m } }
    hi.exp()
}

// ---------------------------------------------------------------- J01 Jn, Yn
fn gen_nx(g: &mut Gen, nmax: u64, xmax: f64) -> (f64, f64) {
    let (pn, px) = (g.prev[0], g.prev[1]);
    let n = match g.r.below(8) { 0..=3 => g.int(nmax, 12.min(nmax)), 4 => g.int(nmax, 100.min(nmax)), 5 => g.r.below(3) as f64, 6 => g.r.below(nmax.min(1000) + 1) as f64, _ => pn.abs().round().min(nmax as f64) };
    let n = if n.is_finite() { n } else { 2.0 };
    let x = match g.r.below(12) {
        0..=2 => g.real(1e-300, xmax, 0.0, 30.0, px),
        3 => n * g.r.uni(0.3, 2.0),
        4 => g.near(n).abs(),
        5 => { let e = g.r.pick(&[8.0, 15.0, 1.0, 2.0, n + 1.0, n - 1.0, 0.5 * n]); g.near(e).abs() }
        6 => n + g.r.uni(-5.0, 5.0) * n.cbrt(),
        7 => g.r.logu(1e-12, xmax),
        8 => g.r.uni(0.0, 12.0),
        9 => g.r.logu(1.0, xmax),
        10 => g.r.uni(7.0, 60.0),
        _ => g.real(1e-300, xmax, 0.0, 300.0, px),
    };
    let x = if n > 2.0 && g.r.chance(0.03) { edge(g, n) } else { x };
    (n, if x > 0.0 && x <= xmax { x } else { 1.0 })
}
fn gen_jn(g: &mut Gen) -> A { let m = if g.r.chance(0.05) { NIK as u64 } else { 1500 }; let (n, x) = gen_nx(g, m, 3e4); [n, if g.r.chance(0.2) { -x } else { x }, 0., 0.] }
fn gen_jn_big(g: &mut Gen) -> A { let n = g.r.below(6) as f64; [n, g.r.logu(1e3, 1e12), 0., 0.] }
fn ref_jy(n: f64, x: f64) -> Option<[Q; 4]> { o::besseljy(n, x) }
pub fn tol_jn(n: f64, x: f64) -> f64 { EPS * (40.0 + 2.0 * x + 2.0 * n) }
fn j_jn(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1]);
    let ax = x.abs();
    if !(n <= NIK && ax <= 3e4 && ax >= 1e-12) { return V::Skip("outside the domain"); }
    if l2_jn(n, ax) < -1000.0 && ax < n { let v = tri!(call!(p::Jn(n as u32, x))); return must(v.abs() < 1e-300, || format!("Jn({n},{x:?}) = {v:e}, expected underflow")); }
    let r = match ref_jy(n, ax) { Some(r) => r, None => return V::Skip("oracle gave up") };
    let scale = if ax > n { hyp(&r[0], &r[1]).min(1.0) } else { r[0].d().abs() };
    let v = tri!(call!(p::Jn(n as u32, x)));
    let v = if x < 0.0 && n % 2.0 == 1.0 { -v } else { v };
    acc("Jn", Ok(v), &r[0], 0.0, tol_jn(n, if ax > n { ax } else { 0.0 }) * scale + 1e-303)
}
/// log2 of the leading term (x/2)^n/n!
fn l2_jn(n: f64, x: f64) -> f64 { (n * (0.5 * x).ln() - o::lgamma(n + 1.0).d()) / 2f64.ln() }
fn j_yn(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1]);
    if !(n <= NIK && x <= 3e4 && x >= 1e-12) { return V::Skip("outside the domain"); }
    let v = call!(p::Yn(n as u32, x));
    if x < n && l2_jn(n, x) < -1100.0 { let v = tri!(v); return must(v == f64::NEG_INFINITY, || format!("Yn({n},{x:?}) = {v:e}, expected overflow to -inf")); }
    let r = match ref_jy(n, x) { Some(r) => r, None => return V::Skip("oracle gave up") };
    if l2(&r[1]) > 1023.9 { let v = tri!(v); return must(v == f64::NEG_INFINITY || v < -1e307, || format!("Yn({n},{x:?}) = {v:e}, expected overflow to -inf")); }
    let scale = hyp(&r[0], &r[1]);
    acc("Yn", v, &r[1], 0.0, (tol_jn(n, x) * scale).max(if l2(&r[1]) > 1020.0 { 1e-10 * scale } else { 0.0 }))
}
fn j_jybig(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1]);
    if !(n <= 6.0 && x >= 1e3 && x <= 1e12) { return V::Skip("outside the domain"); }
    let r = o::jyn(n as i32, x);
    let t = tol_jn(n, x) * (2.0 / (std::f64::consts::PI * x)).sqrt();
    all([acc("Jn", call!(p::Jn(n as u32, x)), &r[0], 0.0, t), acc("Yn", call!(p::Yn(n as u32, x)), &r[1], 0.0, t)])
}
fn j_jn_rec(s: &A) -> V {
    // J_{n-1} + J_{n+1} = 2n/x J_n, the same for Y; cross product J_{n+1} Y_n - J_n Y_{n+1} = 2/(pi x)
    let (n, x) = (s[0].abs().round(), s[1].abs());
    if !(n >= 1.0 && n <= NIK && x <= 3e4 && x >= 1e-3) { return V::Skip("outside the domain"); }
    let k = n as u32;
    let j = [tri!(call!(p::Jn(k - 1, x))), tri!(call!(p::Jn(k, x))), tri!(call!(p::Jn(k + 1, x)))];
    let y = [tri!(call!(p::Yn(k - 1, x))), tri!(call!(p::Yn(k, x))), tri!(call!(p::Yn(k + 1, x)))];
    if j[1].abs() < 1e-280 || j[2].abs() < 1e-290 || !y[2].is_finite() { return V::Skip("over- or underflow"); }
    let m: Vec<f64> = (0..3).map(|i| if x > n - 2.0 { j[i].hypot(y[i]) } else { j[i].abs() }).collect();
    let t = 2.0 * tol_jn(n + 1.0, x);
    let c = 2.0 * n / x;
    let rj = (j[0] + j[2] - c * j[1]).abs() / (t * (m[0] + m[2] + c * m[1]));
    let ry = (y[0] + y[2] - c * y[1]).abs() / (t * (y[0].abs() + y[2].abs() + c * y[1].abs() + if x > n - 2.0 { m[0] + m[2] + c * m[1] } else { 0.0 }));
    let w = j[2] * y[1] - j[1] * y[2];
    let w0 = 2.0 / (std::f64::consts::PI * x);
    let rw = (w - w0).abs() / (t * ((m[2] * y[1].abs().max(m[1])) + m[1] * y[2].abs().max(m[2]) + w0));
    verdict(rj.max(ry).max(rw), || format!("n = {n}, x = {x:?}: J {j:?}, Y {y:?} violate the recurrences or the cross product (errors/tolerance {rj:.3}, {ry:.3}, {rw:.3})"))
}
fn gen_par(g: &mut Gen) -> A { let (n, x) = gen_nx(g, 400, 1e4); [n, x, 0., 0.] }
fn j_par(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1].abs());
    if !(n <= 1e4) || !(x <= 9000.0 || x.is_nan()) { return V::Skip("outside the domain"); }
    let k = n as u32;
    let sg = if k % 2 == 1 { -1.0 } else { 1.0 };
    let (a, b) = (tri!(call!(p::Jn(k, x))), tri!(call!(p::Jn(k, -x))));
    let (c, d) = (tri!(call!(p::In(k, x))), tri!(call!(p::In(k, -x))));
    must((a == sg * b || a.is_nan() && b.is_nan()) && (c == sg * d || c.is_nan() && d.is_nan()), || format!("parity: J_{n}({x:?}) = {a:e}, J_{n}(-x) = {b:e}; I_{n}(x) = {c:e}, I_{n}(-x) = {d:e}"))
}
fn gen_n0(g: &mut Gen) -> A { [g.int(3000, 20), g.r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-200, 5e-324, 1e-308, 1e-160]), 0., 0.] }
fn j_zero(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1]);
    if !(n <= 1e5) || x.is_finite() && x.abs() > 1e-150 { return V::Skip("not special"); }
    let k = n as u32;
    let v = [tri!(call!(p::Jn(k, x))), tri!(call!(p::Yn(k, x.abs()))), tri!(call!(p::In(k, x))), tri!(call!(p::Kn(k, x.abs())))];
    if x.is_nan() { return must(v.iter().all(|y| y.is_nan()), || format!("Jn, Yn, In, Kn({n}, NaN) = {v:?}")); }
    if x.is_infinite() {
        let sg = if x < 0.0 && k % 2 == 1 { -1.0 } else { 1.0 };
        return must(v[0] == 0.0 && v[1] == 0.0 && v[2] == sg * f64::INFINITY && v[3] == 0.0, || format!("Jn({n}, {x:?}) = {:?}, Yn({n}, inf) = {:?}, In({n}, {x:?}) = {:?}, Kn({n}, inf) = {:?}", v[0], v[1], v[2], v[3]));
    }
    if x == 0.0 {
        let one = if k == 0 { 1.0 } else { 0.0 };
        return must((v[0] - one).abs() < 1e-14 && (v[2] - one).abs() < 1e-14 , || format!("Jn, Yn, In, Kn({n}, {x:?}) = {v:?}"));
    }
    let l = match k { 0 => [1.0, 0.6366197723675814 * (x.abs() / 2.0).ln() + 0.3674669109, 1.0, -(x.abs() / 2.0).ln() - 0.5772156649], 1 => [x / 2.0, -0.6366197723675814 / x.abs(), x / 2.0, 1.0 / x.abs()], _ => [0.0, f64::NEG_INFINITY, 0.0, f64::INFINITY] };
    must(v.iter().zip(&l).all(|(a, b)| a == b || (a - b).abs() <= 1e-9 * b.abs() + 1e-290 || (b.is_infinite() && a.abs() > 1e290 && (a > &0.0) == (b > &0.0))), || format!("Jn, Yn, In, Kn({n}, {x:?}) = {v:?}, limits {l:?}"))
}
pub fn j01() -> Vec<Clause> {
    vec![cl("Jn", "Jn against quad-precision J_n", 2, gen_jn, j_jn).w(3.0),
         cl("Yn", "Yn against quad-precision Y_n", 2, gen_jn, j_yn).w(3.0),
         cl("large_x", "Jn and Yn for large arguments", 2, gen_jn_big, j_jybig),
         cl("recurrence", "recurrences in n and cross product of Jn and Yn", 2, gen_jn, j_jn_rec),
         cl("parity", "J_n(-x) = (-1)^n J_n(x), I_n(-x) = (-1)^n I_n(x)", 2, gen_par, j_par),
         cl("limits", "x = 0, NaN, tiny x", 2, gen_n0, j_zero).w(0.3)]
}
// ---------------------------------------------------------------- J02 In, Kn
/// largest order and argument of the modified functions
const NIK: f64 = 10000.0;
const XIK: f64 = 9000.0;
/// ln I_n(x) and ln K_n(x) from the uniform asymptotic expansion, up to less than 0.2 + 0.1/n (x >= 0.01) and never too large for K
fn ln_ik(n: f64, x: f64) -> (f64, f64) {
    let r = n.hypot(x);
    let e = r - n * (n / x).asinh();
    (e - 0.5 * (2.0 * std::f64::consts::PI * r).ln(), -e + 0.5 * (std::f64::consts::PI / (2.0 * r)).ln())
}
/// x above 700 and an order for which I and K are representable nevertheless
fn gen_band(g: &mut Gen) -> (f64, f64) {
    let x = g.r.logu(600.0, XIK);
    let t = g.r.uni(-720.0, 720.0);
    let (mut lo, mut hi) = (0.0, NIK);
    for _ in 0..40 { let m = 0.5 * (lo + hi); if ln_ik(m, x).0 > t { lo = m } else { hi = m } }
    (hi, x)
}
fn gen_ik(g: &mut Gen) -> A {
    let c = g.r.below(100);
    let (n, x) = match c {
        0..=2 => { let (n, x) = gen_band(g); (n.round(), x) }
        3..=4 => gen_nx(g, NIK as u64, XIK),
        5..=14 => { let m = g.r.pick(&[3, 30, 400]); (g.r.below(m) as f64, g.r.uni(695.0, 745.0)) }
        _ => gen_nx(g, 1500, 709.0),
    };
    [n, if g.r.chance(0.2) { -x } else { x }, 0., 0.]
}
pub fn tol_ik(n: f64, x: f64) -> f64 { EPS * (24.0 + 2.0 * n + 2.0 * x) }
fn dom_nx(n: f64, x: f64) -> bool { n <= NIK && x >= 1e-12 && x <= XIK }
fn j_in(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1]);
    let ax = x.abs();
    if !dom_nx(n, ax) { return V::Skip("outside the domain"); }
    let l = ln_ik(n, ax).0;
    let v = call!(p::In(n as u32, x));
    let v = if x < 0.0 && n % 2.0 == 1.0 { v.map(|v| -v) } else { v };
    if l > 711.0 { let v = tri!(v); return must(v == f64::INFINITY, || format!("In({n},{x:?}) = {v:e}, expected overflow")); }
    if l < -675.0 { let v = tri!(v); return must((0.0..1e-290).contains(&v), || format!("In({n},{x:?}) = {v:e}, expected underflow")); }
    let r = match o::besselik(n, ax) { Some(r) => r, None => return V::Skip("oracle gave up") };
    if l2(&r[0]) > 1023.9 { let v = tri!(v); return must(v > 1e307, || format!("In({n},{x:?}) = {v:e}, expected overflow or almost")); }
    acc("In", v, &r[0], tol_ik(n, ax), 1e-303)
}
fn j_kn(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1].abs());
    if !dom_nx(n, x) { return V::Skip("outside the domain"); }
    let l = ln_ik(n, x).1;
    let v = call!(p::Kn(n as u32, x));
    if l > 711.0 { let v = tri!(v); return must(v == f64::INFINITY, || format!("Kn({n},{x:?}) = {v:e}, expected overflow to inf")); }
    if l < -747.0 { let v = tri!(v); return must((0.0..1e-322).contains(&v), || format!("Kn({n},{x:?}) = {v:e}, expected underflow to 0")); }
    let r = match o::besselik(n, x) { Some(r) => r, None => return V::Skip("oracle gave up") };
    if l2(&r[1]) > 1023.9 { let v = tri!(v); return must(v == f64::INFINITY || v > 1e307, || format!("Kn({n},{x:?}) = {v:e}, expected overflow to inf")); }
    acc("Kn", v, &r[1], tol_ik(n, x), 2e-323)
}
fn j_ik_rec(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1].abs());
    if !(n >= 1.0 && dom_nx(n, x) && x >= 1e-3) { return V::Skip("outside the domain"); }
    let k = n as u32;
    let i = [tri!(call!(p::In(k - 1, x))), tri!(call!(p::In(k, x))), tri!(call!(p::In(k + 1, x)))];
    let q = [tri!(call!(p::Kn(k - 1, x))), tri!(call!(p::Kn(k, x))), tri!(call!(p::Kn(k + 1, x)))];
    if i[2] < 1e-290 || q[0] < 1e-300 || !q[2].is_finite() || !i[0].is_finite() || i[0] > 1e300 || q[2] > 1e300 { return V::Skip("over- or underflow"); }
    let t = 2.0 * tol_ik(n + 1.0, x);
    let c = 2.0 * n / x;
    let ri = (i[0] - i[2] - c * i[1]).abs() / (t * (i[0] + i[2] + c * i[1]));
    let rk = (q[2] - q[0] - c * q[1]).abs() / (t * (q[0] + q[2] + c * q[1]));
    let rw = (i[1] * q[2] + i[2] * q[1] - 1.0 / x).abs() / (t * 2.0 / x);
    let mono = i[0] >= i[1] * (1.0 - t) && i[1] >= i[2] * (1.0 - t) && q[0] <= q[1] * (1.0 + t) && q[1] <= q[2] * (1.0 + t) && i[2] > 0.0 && q[0] > 0.0;
    if !mono { return V::Fail(format!("n = {n}, x = {x:?}: I {i:?}, K {q:?} not positive and monotone in n")); }
    verdict(ri.max(rk).max(rw), || format!("n = {n}, x = {x:?}: I {i:?}, K {q:?} violate the recurrences or I_n K_(n+1) + I_(n+1) K_n = 1/x ({ri:.3}, {rk:.3}, {rw:.3})"))
}
fn gen_ikover(g: &mut Gen) -> A { [g.int(60, 20), g.r.logu(700.0, 1e4), 0., 0.] }
fn j_ikbig(s: &A) -> V {
    let (n, x) = (s[0].abs().round(), s[1]);
    if !(n <= 60.0 && x >= 760.0 && x <= 1e300) { return V::Skip("outside the domain"); }
    let q = tri!(call!(p::Kn(n as u32, x)));
    must(q >= 0.0 && q < 1e-290, || format!("Kn({n},{x:?}) = {q:e}, expected underflow to 0"))
}
fn j_imono(s: &A) -> V {
    // In increases and Kn decreases with x
    let (n, x, y) = (s[0].abs().round(), s[1].abs(), s[2].abs());
    if !(x < y && dom_nx(n, x) && dom_nx(n, y)) { return V::Skip("outside the domain"); }
    let (a, b, c, d) = (tri!(call!(p::In(n as u32, x))), tri!(call!(p::In(n as u32, y))), tri!(call!(p::Kn(n as u32, x))), tri!(call!(p::Kn(n as u32, y))));
    let t = 2.0 * tol_ik(n, y);
    must(a <= b * (1.0 + t) + 1e-290 && d <= c * (1.0 + t), || format!("n = {n}: I({x:?}) = {a:e}, I({y:?}) = {b:e}, K = {c:e}, {d:e} not monotone"))
}
fn gen_imono(g: &mut Gen) -> A { let s = gen_ik(g); let y = match g.r.below(3) { 0 => ulps(s[1].abs(), 1 + g.r.below(100) as i64), 1 => s[1].abs() * (1.0 + g.r.logu(1e-12, 1.0)), _ => s[1].abs() + g.r.logu(1e-3, 100.0) }; [s[0], s[1].abs(), y, 0.] }
pub fn j02() -> Vec<Clause> {
    vec![cl("In", "In against quad-precision I_n, relative error", 2, gen_ik, j_in).w(3.0),
         cl("Kn", "Kn against quad-precision K_n, relative error", 2, gen_ik, j_kn).w(3.0),
         cl("recurrence", "recurrences, cross product, positivity and monotonicity in n", 2, gen_ik, j_ik_rec),
         cl("monotone_x", "I_n increases, K_n decreases with x", 3, gen_imono, j_imono),
         cl("underflow", "K_n underflows to zero", 2, gen_ikover, j_ikbig).w(0.2)]
}
// ---------------------------------------------------------------- J03 besseljy
fn gen_nux(g: &mut Gen, numax: f64, xmax: f64) -> (f64, f64) {
    let (pn, px) = (g.prev[0], g.prev[1]);
    let nu = match g.r.below(10) { 0..=2 => g.real(0.0, numax, 0.0, 12.0, pn), 3 => (g.r.below(80) as f64) * 0.5, 4 => { let n = g.r.below(40) as f64; (n + 0.5 + g.r.sign() * g.r.logu(1e-17, 0.1)).abs() } 5 => { let n = g.r.below(40) as f64; (n + g.r.sign() * g.r.logu(1e-17, 0.1)).abs() } 6 => g.r.uni(0.0, 1.0), 7 => g.r.uni(0.0, 100.0f64.min(numax)), 8 => g.r.logu(1e-300, numax), _ => g.real(0.0, numax, 0.0, 200.0, pn) };
    let x = match g.r.below(12) {
        0..=2 => g.real(1e-3, xmax, 0.0, 20.0, px),
        3 => nu * g.r.uni(0.3, 2.0),
        4 => g.near(2.0),
        5 => nu + g.r.uni(-3.0, 3.0) * (1.0 + nu.cbrt()),
        6 => g.r.logu(1e-3, xmax),
        7 => { let k = g.r.below(60) as f64; nu - k + 1.5 }
        8 => g.r.uni(0.1, 4.0),
        9 => g.r.logu(1.0, xmax),
        10 => g.near(nu),
        _ => g.real(1e-3, xmax, 0.0, 300.0, px),
    };
    let x = if nu > 2.0 && g.r.chance(0.05) { edge(g, nu) } else { x };
    (nu, if x >= 1e-3 && x <= xmax { x } else { 1.5 })
}
const JNU: f64 = 10000.0;
const JX: f64 = 9000.0;
fn gen_jy(g: &mut Gen) -> A {
    if g.r.chance(0.004) {
        let (nu, n) = (g.r.below(4) as f64 + g.r.uni(0.5, 0.7), g.r.below(7) as i32);
        let x = o::temme_zero(nu - (nu + 0.5).floor(), n);
        if x > 0.0 { return [nu, f64::from_bits((x.to_bits() as i64 + g.r.below(81) as i64 - 40) as u64), 0., 0.]; }
    }
    let (a, b) = if g.r.chance(0.04) { (JNU, JX) } else { (500.0, 5000.0) }; let (n, x) = gen_nux(g, a, b); [n, x, 0., 0.] }
fn dom_jy(nu: f64, x: f64) -> bool { nu >= 0.0 && nu <= JNU && x >= 1e-3 && x <= JX }
pub fn tol_jy(nu: f64, x: f64) -> f64 { EPS * (100.0 + 8.0 * x + 8.0 * nu + 0.25 * x * x) }
fn j_jy(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if !dom_jy(nu, x) { return V::Skip("outside the domain"); }
    let r = match o::besseljy(nu, x) { Some(r) => r, None => return V::Skip("oracle gave up") };
    let (a, b, c, d) = tri!(call!(p::besseljy(nu, x)));
    let t = tol_jy(nu, x);
    let over = l2(&r[1]) > 1015.0 || l2(&r[3]) > 1015.0;
    if over {
        if l2(&r[1]) > 1024.0 && b != f64::NEG_INFINITY { return V::Fail(format!("Y_{nu:?}({x:?}) = {b:e}, expected overflow to -inf")); }
        if a.is_nan() || b.is_nan() || c.is_nan() || d.is_nan() { return V::Fail(format!("besseljy({nu:?},{x:?}) = ({a:e},{b:e},{c:e},{d:e})")); }
        return must(a.abs() < 1e-280 && c.abs() < 1e-270, || format!("besseljy({nu:?},{x:?}) = ({a:e},{b:e},{c:e},{d:e}), expected underflow"));
    }
    let m = hyp(&r[0], &r[1]);
    let n = hyp(&r[2], &r[3]);
    let (mj, nj) = if x > nu { (m, n) } else { (r[0].d().abs(), r[2].d().abs()) };
    let k = nu / x;
    all([acc("J_nu", Ok(a), &r[0], 0.0, t * mj + 1e-290), acc("Y_nu", Ok(b), &r[1], 0.0, t * m), acc("J'_nu", Ok(c), &r[2], 0.0, t * (nj + k * mj) + 1e-290), acc("Y'_nu", Ok(d), &r[3], 0.0, t * (n + k * m))])
}
fn gen_tiny(g: &mut Gen) -> A {
    let nu = match g.r.below(6) { 0 => (g.r.below(40) as f64) * 0.5, 1 => g.r.uni(0.0, 1.0), 2 => g.r.logu(1e-300, 1.0), 3 => { let n = g.r.below(20) as f64; (n + g.r.sign() * g.r.logu(1e-17, 0.5)).abs() } 4 => g.r.uni(0.0, 0.45), _ => g.r.uni(0.0, 60.0) };
    let pr = g.prev[1];
    [nu, if g.r.chance(0.2) { g.real(1e-290, 1e-3, 1e-10, 1e-3, pr) } else { g.r.logu(1e-290, 1e-3) }, 0., 0.]
}
fn tol_tiny(nu: f64, x: f64) -> f64 { EPS * (60.0 + 4.0 * nu - 1.2 * x.ln()) }
fn tiny_over(name: &str, nu: f64, x: f64, r: &[Q; 4], v: &(f64, f64, f64, f64), inf: f64) -> V {
    if v.0.is_nan() || v.1.is_nan() || v.2.is_nan() || v.3.is_nan() { return V::Fail(format!("{name}({nu:?},{x:?}) = {v:?}")); }
    if l2(&r[1]) > 1024.0 && v.1 != inf { return V::Fail(format!("{name}({nu:?},{x:?}) = {v:?}, the second solution overflows")); }
    must(v.0.abs() < 1e-280 && v.2.abs() < 1e-270 * (1.0 + nu / x), || format!("{name}({nu:?},{x:?}) = {v:?}, the first solution underflows"))
}
fn tiny(name: &str, nu: f64, x: f64, r: &[Q; 4], v: &(f64, f64, f64, f64), inf: f64) -> V {
    if l2(&r[1]) > 1015.0 { return tiny_over(name, nu, x, r, v, inf); }
    let t = tol_tiny(nu, x);
    let d = if l2(&r[3]) > 1024.0 { must(v.3 == -inf, || format!("{name}({nu:?},{x:?}) = {v:?}, expected overflow of the derivative of the second solution")) }
        else if l2(&r[3]) > 1015.0 { V::Skip("derivative close to overflow") }
        else { acc("derivative of the second solution", Ok(v.3), &r[3], t, 0.0) };
    all([acc("first solution", Ok(v.0), &r[0], t, 1e-320), acc("second solution", Ok(v.1), &r[1], t, 0.0),
         acc("derivative of the first solution", Ok(v.2), &r[2], t, t * (nu / x + x) * r[0].d().abs() + 1e-291 * r[0].d().abs() + 1e-320 * nu / x + 1e-320), d])
}
fn dom_tiny(nu: f64, x: f64) -> bool { nu >= 0.0 && nu <= 100.0 && x >= 1e-290 && x < 1e-3 }
fn j_ytiny(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if !dom_tiny(nu, x) { return V::Skip("outside the domain"); }
    let r = match o::besseljy(nu, x) { Some(r) => r, None => return V::Skip("oracle gave up") };
    tiny("besseljy", nu, x, &r, &tri!(call!(p::besseljy(nu, x))), f64::NEG_INFINITY)
}
fn j_ktiny(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if !dom_tiny(nu, x) { return V::Skip("outside the domain"); }
    let r = match o::besselik(nu, x) { Some(r) => r, None => return V::Skip("oracle gave up") };
    tiny("besselik", nu, x, &r, &tri!(call!(p::besselik(nu, x))), f64::INFINITY)
}
fn j_jyw(s: &A) -> V {
    // Wronskian J Y' - J' Y = 2/(pi x)
    let (nu, x) = (s[0], s[1]);
    if !dom_jy(nu, x) { return V::Skip("outside the domain"); }
    let (a, b, c, d) = tri!(call!(p::besseljy(nu, x)));
    if !(b.is_finite() && d.is_finite()) || a.abs() < 1e-280 && b.abs() > 1e280 || d.abs() > 1e300 { return V::Skip("over- or underflow"); }
    let w0 = 2.0 / (std::f64::consts::PI * x);
    verdict((a * d - c * b - w0).abs() / (2.0 * tol_jy(nu, x) * ((a * d).abs() + (c * b).abs() + w0)), || format!("Wronskian J Y' - J' Y = {:e}, expected {w0:e} at nu = {nu:?}, x = {x:?}", a * d - c * b))
}
fn j_jyrec(s: &A) -> V {
    // C'_nu = nu/x C_nu - C_(nu+1), C'_(nu+1) = C_nu - (nu+1)/x C_(nu+1)
    let (nu, x) = (s[0], s[1]);
    if !dom_jy(nu, x) || !dom_jy(nu + 1.0, x) || (nu + 1.0) - 1.0 != nu { return V::Skip("outside the domain"); }
    let (a, b, c, d) = tri!(call!(p::besseljy(nu, x)));
    let (a1, b1, c1, d1) = tri!(call!(p::besseljy(nu + 1.0, x)));
    if !(b1.is_finite() && d1.is_finite()) || d1.abs() > 1e300 || a1.abs() < 1e-280 && b1.abs() > 1e270 { return V::Skip("over- or underflow"); }
    let t = 2.0 * tol_jy(nu + 1.0, x);
    let (k, k1) = (nu / x, (nu + 1.0) / x);
    let (m, m1, n, n1) = (a.hypot(b), a1.hypot(b1), c.hypot(d), c1.hypot(d1));
    let sj = |big: f64, small: f64| if x > nu { big } else { small };
    let e = [
        (c - k * a + a1).abs() / (t * sj(n + k * m + m1, c.abs() + k * a.abs() + a1.abs())),
        (d - k * b + b1).abs() / (t * (n + k * m + m1)),
        (c1 - a + k1 * a1).abs() / (t * sj(n1 + m + k1 * m1, c1.abs() + a.abs() + k1 * a1.abs())),
        (d1 - b + k1 * b1).abs() / (t * (n1 + m + k1 * m1)),
    ];
    verdict(e.iter().cloned().fold(0.0, f64::max), || format!("nu = {nu:?}, x = {x:?}: derivative recurrences violated, errors/tolerance {e:?}"))
}
fn j_jyint(s: &A) -> V {
    // integer orders: besseljy and Jn/Yn are independent implementations
    let (nu, x) = (s[0].round(), s[1]);
    if !dom_jy(nu, x) { return V::Skip("outside the domain"); }
    let (a, b, _, _) = tri!(call!(p::besseljy(nu, x)));
    let (j, y) = (tri!(call!(p::Jn(nu as u32, x))), tri!(call!(p::Yn(nu as u32, x))));
    if j.abs() < 1e-280 || !y.is_finite() || y.abs() > 1e300 { return V::Skip("over- or underflow"); }
    let t = tol_jy(nu, x) + tol_jn(nu, x);
    let m = j.hypot(y);
    let r = ((a - j).abs() / (t * if x > nu { m } else { j.abs() })).max((b - y).abs() / (t * m));
    verdict(r, || format!("besseljy({nu},{x:?}) = ({a:e},{b:e}) but Jn, Yn = ({j:e},{y:e})"))
}
pub fn j03() -> Vec<Clause> {
    vec![cl("besseljy", "besseljy (values and derivatives) against the quad-precision functions", 2, gen_jy, j_jy).w(4.0),
         cl("small_x", "besseljy for x down to 1e-290 against the quad-precision functions", 2, gen_tiny, j_ytiny).w(0.5),
         cl("wronskian", "J Y' - J' Y = 2/(pi x)", 2, gen_jy, j_jyw),
         cl("recurrence", "recurrences between orders nu and nu+1", 2, gen_jy, j_jyrec),
         cl("integer_order", "besseljy at integer order = Jn, Yn", 2, gen_jy, j_jyint)]
}
// ---------------------------------------------------------------- J04 besselik
const IX: f64 = XIK;
fn gen_ikn(g: &mut Gen) -> A {
    let (n, x) = match g.r.below(100) {
        0..=2 => gen_band(g),
        3..=4 => gen_nux(g, JNU, IX),
        5..=9 => { let m = g.r.pick(&[1.0, 10.0, 400.0]); (g.r.uni(0.0, m), g.r.uni(695.0, 745.0)) }
        10..=13 => gen_nux(g, JNU, 700.0),
        _ => gen_nux(g, 500.0, 700.0),
    };
    [n, x, 0., 0.]
}
fn dom_ik(nu: f64, x: f64) -> bool { nu >= 0.0 && nu <= JNU && x >= 1e-3 && x <= IX }
pub fn tol_iknu(nu: f64, x: f64) -> f64 { EPS * (200.0 + 8.0 * x + 8.0 * nu) }
fn j_iknu(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if !dom_ik(nu, x) { return V::Skip("outside the domain"); }
    let r = match o::besselik(nu, x) { Some(r) => r, None => return V::Skip("oracle gave up") };
    let (a, b, c, d) = tri!(call!(p::besselik(nu, x)));
    let t = tol_iknu(nu, x);
    if l2(&r[1]) > 1015.0 || l2(&r[3]) > 1015.0 {
        if a.is_nan() || b.is_nan() || c.is_nan() || d.is_nan() { return V::Fail(format!("besselik({nu:?},{x:?}) = ({a:e},{b:e},{c:e},{d:e})")); }
        if l2(&r[1]) > 1024.0 && b != f64::INFINITY { return V::Fail(format!("K_{nu:?}({x:?}) = {b:e}, expected overflow to inf")); }
        return must(a >= 0.0 && a < 1e-280 && c.abs() < 1e-270, || format!("besselik({nu:?},{x:?}) = ({a:e},{b:e},{c:e},{d:e}), expected underflow"));
    }
    let k = nu / x;
    let second = [acc("K_nu", Ok(b), &r[1], t, 1e-307), acc("K'_nu", Ok(d), &r[3], t, 1e-307)];
    if l2(&r[0]) > 1015.0 || l2(&r[2]) > 1015.0 {
        let bad = |v: f64, r: &Q| if l2(r) > 1023.9 { v < 1e307 } else { v < 1e300 } || v.is_nan();
        if bad(a, &r[0]) || bad(c, &r[2]) { return V::Fail(format!("besselik({nu:?},{x:?}) = ({a:e},{b:e},{c:e},{d:e}), expected overflow of I")); }
        return all(second);
    }
    let [k0, k1] = second;
    all([acc("I_nu", Ok(a), &r[0], t, 1e-290), k0, acc("I'_nu", Ok(c), &r[2], t, t * k * r[0].d() + 1e-290), k1])
}
fn j_ikw(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if !dom_ik(nu, x) { return V::Skip("outside the domain"); }
    let (a, b, c, d) = tri!(call!(p::besselik(nu, x)));
    if !(b.is_finite() && d.is_finite()) || !(a >= 1e-280 && a < 1e300 && c < 1e300 && b > 1e-300) || b > 1e300 || d.abs() > 1e300 { return V::Skip("over- or underflow"); }
    if !(a > 0.0 && b > 0.0 && c >= 0.0 && d < 0.0) { return V::Fail(format!("besselik({nu:?},{x:?}) = ({a:e},{b:e},{c:e},{d:e}) has wrong signs")); }
    verdict((c * b - a * d - 1.0 / x).abs() / (2.0 * tol_iknu(nu, x) / x), || format!("Wronskian I' K - I K' = {:e}, expected {:e} at nu = {nu:?}, x = {x:?}", c * b - a * d, 1.0 / x))
}
fn j_ikrec(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if !dom_ik(nu, x) || !dom_ik(nu + 1.0, x) || (nu + 1.0) - 1.0 != nu { return V::Skip("outside the domain"); }
    let (a, b, c, d) = tri!(call!(p::besselik(nu, x)));
    let (a1, b1, c1, d1) = tri!(call!(p::besselik(nu + 1.0, x)));
    if !(b1.is_finite() && d1.is_finite()) || !(a1 >= 1e-280 && a < 1e290 && c < 1e290 && b > 1e-300) || b1 > 1e290 || d1.abs() > 1e290 { return V::Skip("over- or underflow"); }
    let t = 2.0 * tol_iknu(nu + 1.0, x);
    let (k, k1) = (nu / x, (nu + 1.0) / x);
    let e = [
        (c - k * a - a1).abs() / (t * (c + k * a + a1)),
        (d - k * b + b1).abs() / (t * (d.abs() + k * b + b1)),
        (c1 - a + k1 * a1).abs() / (t * (c1 + a + k1 * a1)),
        (d1 + b + k1 * b1).abs() / (t * (d1.abs() + b + k1 * b1)),
    ];
    verdict(e.iter().cloned().fold(0.0, f64::max), || format!("nu = {nu:?}, x = {x:?}: derivative recurrences violated, errors/tolerance {e:?}"))
}
fn j_ikint(s: &A) -> V {
    let (nu, x) = (s[0].round(), s[1]);
    if !dom_ik(nu, x) { return V::Skip("outside the domain"); }
    let (a, b, _, _) = tri!(call!(p::besselik(nu, x)));
    let (i, k) = (tri!(call!(p::In(nu as u32, x))), tri!(call!(p::Kn(nu as u32, x))));
    if !(i >= 1e-280 && i < 1e300 && k > 1e-300 && k < 1e300) { return V::Skip("over- or underflow"); }
    let t = tol_iknu(nu, x) + tol_ik(nu, x);
    verdict(((a - i).abs() / (t * i)).max((b - k).abs() / (t * k)), || format!("besselik({nu},{x:?}) = ({a:e},{b:e}) but In, Kn = ({i:e},{k:e})"))
}
pub fn j04() -> Vec<Clause> {
    vec![cl("besselik", "besselik (values and derivatives) against the quad-precision functions", 2, gen_ikn, j_iknu).w(4.0),
         cl("small_x", "besselik for x down to 1e-290 against the quad-precision functions", 2, gen_tiny, j_ktiny).w(0.5),
         cl("wronskian", "I' K - I K' = 1/x, signs", 2, gen_ikn, j_ikw),
         cl("recurrence", "recurrences between orders nu and nu+1", 2, gen_ikn, j_ikrec),
         cl("integer_order", "besselik at integer order = In, Kn", 2, gen_ikn, j_ikint)]
}
// ---------------------------------------------------------------- J05 projections, half-integer closed forms, documented panics
fn gen_proj(g: &mut Gen) -> A { let (n, x) = gen_nux(g, 300.0, 700.0); [n, x, 0., 0.] }
fn j_proj(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    let ok = |nu: f64, x: f64| nu >= 0.0 && nu <= 1e4 && x > 0.0 && x <= 9000.0;
    if !ok(nu, x) { return V::Skip("outside the domain"); }
    let (a, b) = (call!(p::besseljy(nu, x)), call!(p::Jnu_Ynu(nu, x)));
    let (c, d) = (call!(p::besselik(nu, x)), call!(p::Inu_Knu(nu, x)));
    let eq = |a: &Result<(f64, f64, f64, f64), String>, b: &Result<(f64, f64), String>| match (a, b) { (Ok(a), Ok(b)) => same(a.0, b.0) && same(a.1, b.1), (Err(a), Err(b)) => a == b, _ => false };
    must(eq(&a, &b) && eq(&c, &d), || format!("nu = {nu:?}, x = {x:?}: besseljy {a:?}, Jnu_Ynu {b:?}, besselik {c:?}, Inu_Knu {d:?}"))
}
fn gen_half(g: &mut Gen) -> A { [g.r.below(3) as f64 + 0.5, match g.r.below(4) { 0 => g.r.uni(0.05, 30.0), 1 => g.r.logu(1e-2, 700.0), 2 => g.near(2.0), _ => g.real(1e-2, 700.0, 0.0, 10.0, 2.0) }, 0., 0.] }
fn j_half(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if !(x >= 1e-2 && x <= 600.0) { return V::Skip("outside the domain"); }
    let c = (2.0 / (std::f64::consts::PI * x)).sqrt();
    let (si, co) = x.sin_cos();
    let (j, y, i, k) = match nu {
        v if v == 0.5 => (c * si, -c * co, c * x.sinh(), (std::f64::consts::PI / (2.0 * x)).sqrt() * (-x).exp()),
        v if v == 1.5 => (c * (si / x - co), -c * (si + co / x), c * (x.cosh() - x.sinh() / x), (std::f64::consts::PI / (2.0 * x)).sqrt() * (-x).exp() * (1.0 + 1.0 / x)),
        _ => return V::Skip("no closed form used"),
    };
    let (a, b, _, _) = tri!(call!(p::besseljy(nu, x)));
    let (p_, q_, _, _) = tri!(call!(p::besselik(nu, x)));
    // cancellation in the closed form of J_{3/2}, I_{3/2} at small x
    let cj = if nu > 1.0 { c * EPS * 8.0 * (1.0 + 1.0 / x) } else { 0.0 };
    let ci = if nu > 1.0 { c * EPS * 8.0 * x.cosh() * (1.0 + 1.0 / x) } else { 0.0 };
    let m = j.hypot(y);
    let (t, u) = (tol_jy(nu, x), tol_iknu(nu, x));
    let r = ((a - j).abs() / (t * if x > nu { m } else { j.abs() } + cj)).max((b - y).abs() / (t * m)).max((p_ - i).abs() / (u * i + ci)).max((q_ - k).abs() / (u * k));
    verdict(r, || format!("nu = {nu}, x = {x:?}: J, Y, I, K = {a:e}, {b:e}, {p_:e}, {q_:e}, elementary forms {j:e}, {y:e}, {i:e}, {k:e}"))
}
fn gen_jbad(g: &mut Gen) -> A {
    match g.r.below(5) {
        0 => { let (n, x) = gen_nux(g, 300.0, 700.0); [-n, x, 0., 0.] }
        1 => { let (n, x) = gen_nux(g, 300.0, 700.0); [n, -x, 0., 0.] }
        2 => { let (n, _) = gen_nux(g, 300.0, 700.0); [n, g.r.pick(&[0.0, -0.0, -1e-300, f64::NEG_INFINITY]), 0., 0.] }
        3 => { let (n, _) = gen_nux(g, 300.0, 700.0); [n, g.r.logu(1e3, 1e7), 0., 0.] }
        _ => { let (n, x) = gen_nux(g, 300.0, 700.0); [n, x, 0., 0.] }
    }
}
fn j_jbad(s: &A) -> V {
    let (nu, x) = (s[0], s[1]);
    if nu.is_nan() || x.is_nan() || nu > 1e4 || x > 1e8 { return V::Skip("outside the domain"); }
    let (a, b) = (call!(p::besseljy(nu, x)), call!(p::besselik(nu, x)));
    if x <= 0.0 || nu < 0.0 {
        return must(a.is_err() && b.is_err(), || format!("besseljy({nu:?},{x:?}) = {a:?}, besselik = {b:?} instead of the documented panic"));
    }
    if x > 2e4 {
        // too large: the continued fraction cannot converge within its step limit
        return must(a.is_err() || a.as_ref().map_or(false, |v| v.0.hypot(v.1) < 1.0), || format!("besseljy({nu:?},{x:?}) = {a:?}"));
    }
    if x > 9000.0 { return V::Skip("transition"); }
    must(a.is_ok() && b.is_ok(), || format!("besseljy({nu:?},{x:?}) = {a:?}, besselik = {b:?}: unexpected panic"))
}
pub fn j05() -> Vec<Clause> {
    vec![cl("projection", "Jnu_Ynu and Inu_Knu return the first two components of besseljy and besselik, bit for bit", 2, gen_proj, j_proj),
         cl("half_integer", "orders 1/2 and 3/2 against their elementary closed forms", 2, gen_half, j_half),
         cl("panics", "the documented panics and no others", 2, gen_jbad, j_jbad).w(0.7)]
}
