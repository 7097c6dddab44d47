//! Every public function behind one interface, with the panics its documentation announces.
use crate::engine::call;
use crate::gen::{Gen, A};
use puruspe as p;

#[derive(Clone, Copy, PartialEq)]
pub enum K { R, N, I }
pub enum Doc { Never, Must, May }
/// result of one evaluation: number of values and their bits, NaNs made equal
pub type Out = (usize, [u64; 4]);
pub struct F {
    pub name: &'static str,
    pub kinds: &'static [K],
    pub eval: fn(&A) -> Out,
    /// announced panics
    pub doc: fn(&A) -> Doc,
    /// typical argument ranges
    pub core: &'static [(f64, f64)],
    /// the values are in the announced range
    pub range: fn(&A, &[f64; 4]) -> bool,
    /// the mathematical function has a value at these (finite) arguments, so that the result must not be NaN
    pub defined: fn(&A) -> bool,
}
fn bits(x: f64) -> u64 { if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() } }
fn r1(x: f64) -> Out { (1, [bits(x), 0, 0, 0]) }
fn r2(x: (f64, f64)) -> Out { (2, [bits(x.0), bits(x.1), 0, 0]) }
fn r4(x: (f64, f64, f64, f64)) -> Out { (4, [bits(x.0), bits(x.1), bits(x.2), bits(x.3)]) }
fn never(_: &A) -> Doc { Doc::Never }
fn n(x: f64) -> u32 { x as u32 }
fn i(x: f64) -> i32 { x as i32 }
fn pos2(a: &A) -> Doc { if a[0].is_nan() || a[1].is_nan() { Doc::May } else if a[0] > 0.0 && a[1] >= 0.0 { Doc::Never } else { Doc::Must } }
fn beta_doc(a: &A) -> Doc { if a[0].is_nan() || a[1].is_nan() { Doc::May } else if a[0] > 0.0 && a[1] > 0.0 { Doc::Never } else { Doc::Must } }
fn betai_doc(a: &A) -> Doc { if a[..3].iter().any(|x| x.is_nan()) { Doc::May } else if a[0] > 0.0 && a[1] > 0.0 && a[2] >= 0.0 && a[2] <= 1.0 { Doc::Never } else { Doc::Must } }
fn invg_doc(a: &A) -> Doc { if a[0].is_nan() || a[1].is_nan() { Doc::May } else if a[1] > 1e12 { Doc::May } else if a[1] > 0.0 { Doc::Never } else { Doc::Must } }
fn bes_doc(a: &A) -> Doc { if a[0].is_nan() || a[1].is_nan() { Doc::May } else if a[0] < 0.0 || a[1] <= 0.0 { Doc::Must } else if a[0] <= 9000.0 && a[1] <= 9000.0 && a[1] >= 1e-100 { Doc::Never } else { Doc::May } }
fn any(_: &A, _: &[f64; 4]) -> bool { true }
fn yes(_: &A) -> bool { true }
fn no(_: &A) -> bool { false }
fn unit(_: &A, v: &[f64; 4]) -> bool { v[0] >= 0.0 && v[0] <= 1.0 || v[0].is_nan() }
fn same_or_nan(x: f64, ok: bool) -> bool { ok || x.is_nan() }
use K::{I, N, R};
pub static TABLE: [F; 32] = [
    F { name: "gamma", kinds: &[R], eval: |a| r1(p::gamma(a[0])), doc: never, core: &[(-30.0, 172.0)], range: any, defined: |a| a[0] > 0.0 || a[0] != a[0].trunc() },
    F { name: "ln_gamma", kinds: &[R], eval: |a| r1(p::ln_gamma(a[0])), doc: never, core: &[(0.0, 200.0)], range: |a, v| !(a[0] > 0.0) || v[0] > -0.1215, defined: |a| a[0] > 0.0 },
    F { name: "gammp", kinds: &[R, R], eval: |a| r1(p::gammp(a[0], a[1])), doc: pos2, core: &[(0.0, 300.0), (0.0, 300.0)], range: unit, defined: |a| a[0] < 1e10 && a[1] < 1e10 },
    F { name: "gammq", kinds: &[R, R], eval: |a| r1(p::gammq(a[0], a[1])), doc: pos2, core: &[(0.0, 300.0), (0.0, 300.0)], range: unit, defined: |a| a[0] < 1e10 && a[1] < 1e10 },
    F { name: "invgammp", kinds: &[R, R], eval: |a| r1(p::invgammp(a[0], a[1])), doc: invg_doc, core: &[(0.0, 1.0), (0.0, 300.0)], range: |_, v| same_or_nan(v[0], v[0] >= 0.0), defined: |a| a[1] >= 1e-3 && a[1] <= 1e5 },
    F { name: "beta", kinds: &[R, R], eval: |a| r1(p::beta(a[0], a[1])), doc: beta_doc, core: &[(0.0, 100.0), (0.0, 100.0)], range: |_, v| same_or_nan(v[0], v[0] >= 0.0), defined: |a| a[0] < 1e300 && a[1] < 1e300 },
    F { name: "betai", kinds: &[R, R, R], eval: |a| r1(p::betai(a[0], a[1], a[2])), doc: betai_doc, core: &[(0.0, 100.0), (0.0, 100.0), (0.0, 1.0)], range: |a, v| a[0] > 1e10 || a[1] > 1e10 || unit(a, v), defined: |a| a[0] < 1e10 && a[1] < 1e10 },
    F { name: "invbetai", kinds: &[R, R, R], eval: |a| r1(p::invbetai(a[0], a[1], a[2])), doc: |a| if a[..3].iter().any(|x| x.is_nan()) || a[1] < 0.1 || a[2] < 0.1 || a[1] > 1e4 || a[2] > 1e4 { Doc::May } else { Doc::Never }, core: &[(0.0, 1.0), (0.1, 100.0), (0.1, 100.0)], range: unit, defined: |a| a[1] >= 0.1 && a[2] >= 0.1 && a[1] <= 1e4 && a[2] <= 1e4 },
    F { name: "erf", kinds: &[R], eval: |a| r1(p::erf(a[0])), doc: never, core: &[(-7.0, 7.0)], range: |_, v| same_or_nan(v[0], v[0].abs() <= 1.0), defined: yes },
    F { name: "erfc", kinds: &[R], eval: |a| r1(p::erfc(a[0])), doc: never, core: &[(-7.0, 30.0)], range: |_, v| same_or_nan(v[0], v[0] >= 0.0 && v[0] <= 2.0), defined: yes },
    F { name: "erfcx", kinds: &[R], eval: |a| r1(p::erfcx(a[0])), doc: never, core: &[(-30.0, 100.0)], range: |_, v| same_or_nan(v[0], v[0] >= 0.0), defined: yes },
    F { name: "inverf", kinds: &[R], eval: |a| r1(p::inverf(a[0])), doc: never, core: &[(-1.0, 1.0)], range: any, defined: yes },
    F { name: "inverfc", kinds: &[R], eval: |a| r1(p::inverfc(a[0])), doc: never, core: &[(0.0, 2.0)], range: any, defined: yes },
    F { name: "dawson", kinds: &[R], eval: |a| r1(p::dawson(a[0])), doc: never, core: &[(-20.0, 20.0)], range: |a, v| same_or_nan(v[0], v[0].abs() < 0.541045 && !(v[0] * a[0].signum() < 0.0)), defined: yes },
    F { name: "faddeeva", kinds: &[R, R], eval: |a| r2(p::faddeeva(a[0], a[1])), doc: never, core: &[(-30.0, 30.0), (-5.0, 30.0)], range: |a, v| !(a[1] >= 0.0) || v[0].is_nan() || v[1].is_nan() || v[0].hypot(v[1]) <= 1.0 + 1e-12, defined: |a| a[1] >= 0.0 || { let le = (a[1] - a[0]) * (a[1] + a[0]); le < 700.0 && (le < -760.0 || (a[0] * a[1]).abs() < 1e300) } },
    F { name: "Jn", kinds: &[N, R], eval: |a| r1(p::Jn(n(a[0]), a[1])), doc: never, core: &[(0.0, 60.0), (-60.0, 60.0)], range: |_, v| same_or_nan(v[0], v[0].abs() <= 1.0 + 1e-9), defined: yes },
    F { name: "Yn", kinds: &[N, R], eval: |a| r1(p::Yn(n(a[0]), a[1])), doc: never, core: &[(0.0, 60.0), (0.0, 60.0)], range: any, defined: |a| a[1] > 0.0 },
    F { name: "In", kinds: &[N, R], eval: |a| r1(p::In(n(a[0]), a[1])), doc: never, core: &[(0.0, 60.0), (-60.0, 60.0)], range: |a, v| same_or_nan(v[0], v[0] >= 0.0 || a[1] < 0.0), defined: yes },
    F { name: "Kn", kinds: &[N, R], eval: |a| r1(p::Kn(n(a[0]), a[1])), doc: never, core: &[(0.0, 60.0), (0.0, 60.0)], range: |a, v| !(a[1] > 0.0) || same_or_nan(v[0], v[0] >= 0.0), defined: |a| a[1] > 0.0 },
    F { name: "besseljy", kinds: &[R, R], eval: |a| r4(p::besseljy(a[0], a[1])), doc: bes_doc, core: &[(0.0, 60.0), (0.0, 60.0)], range: |a, v| a[1] < 1e-290 || same_or_nan(v[0], v[0].abs() <= 1.0 + 1e-7), defined: |a| a[0] <= 9000.0 && a[1] >= 1e-290 && a[1] <= 9000.0 },
    F { name: "besselik", kinds: &[R, R], eval: |a| r4(p::besselik(a[0], a[1])), doc: bes_doc, core: &[(0.0, 60.0), (0.0, 60.0)], range: |a, v| a[1] < 1e-290 || same_or_nan(v[0], v[0] >= 0.0) && same_or_nan(v[1], v[1] >= 0.0), defined: |a| a[0] <= 9000.0 && a[1] >= 1e-290 && a[1] <= 9000.0 },
    F { name: "Jnu_Ynu", kinds: &[R, R], eval: |a| r2(p::Jnu_Ynu(a[0], a[1])), doc: bes_doc, core: &[(0.0, 60.0), (0.0, 60.0)], range: any, defined: |a| a[0] <= 9000.0 && a[1] >= 1e-290 && a[1] <= 9000.0 },
    F { name: "Inu_Knu", kinds: &[R, R], eval: |a| r2(p::Inu_Knu(a[0], a[1])), doc: bes_doc, core: &[(0.0, 60.0), (0.0, 60.0)], range: any, defined: |a| a[0] <= 9000.0 && a[1] >= 1e-290 && a[1] <= 9000.0 },
    F { name: "lambert_w0", kinds: &[R], eval: |a| r1(p::lambert_w0(a[0])), doc: never, core: &[(-0.37, 10.0)], range: |_, v| same_or_nan(v[0], v[0] >= -1.0000001), defined: |a| a[0] >= -0.3678 },
    F { name: "lambert_wm1", kinds: &[R], eval: |a| r1(p::lambert_wm1(a[0])), doc: never, core: &[(-0.37, 0.0)], range: |_, v| same_or_nan(v[0], v[0] <= -0.9999999), defined: |a| a[0] >= -0.3678 && a[0] <= 0.0 },
    F { name: "sp_lambert_w0", kinds: &[R], eval: |a| r1(p::sp_lambert_w0(a[0])), doc: never, core: &[(-0.37, 10.0)], range: |_, v| same_or_nan(v[0], v[0] >= -1.0000001), defined: |a| a[0] >= -0.3678 },
    F { name: "sp_lambert_wm1", kinds: &[R], eval: |a| r1(p::sp_lambert_wm1(a[0])), doc: never, core: &[(-0.37, 0.0)], range: |_, v| same_or_nan(v[0], v[0] <= -0.9999999), defined: |a| a[0] >= -0.3678 && a[0] <= 0.0 },
    F { name: "lambert_w", kinds: &[I, R, R], eval: |a| r2(p::lambert_w(i(a[0]), a[1], a[2])), doc: never, core: &[(-9.0, 9.0), (-5.0, 5.0), (-5.0, 5.0)], range: any, defined: no },
    F { name: "factorial", kinds: &[N], eval: |a| r1(p::utils::factorial(a[0] as usize)), doc: never, core: &[(0.0, 180.0)], range: |_, v| v[0] >= 1.0, defined: yes },
    F { name: "frexp", kinds: &[R], eval: |a| { let (m, e) = p::utils::frexp(a[0]); (2, [bits(m), (e as f64).to_bits(), 0, 0]) }, doc: never, core: &[(-10.0, 10.0)], range: any, defined: yes },
    F { name: "ldexp", kinds: &[R, I], eval: |a| r1(p::utils::ldexp(a[0], i(a[1]))), doc: never, core: &[(-10.0, 10.0), (-1100.0, 1100.0)], range: any, defined: yes },
    F { name: "sign", kinds: &[R, R], eval: |a| r1(p::utils::sign(a[0], a[1])), doc: never, core: &[(-10.0, 10.0), (-10.0, 10.0)], range: any, defined: yes },
];
/// arguments for function k; `wide`: any bit pattern in any argument; orders up to nmax
pub fn args(g: &mut Gen, k: usize, wide: f64, nmax: u64) -> A {
    let f = &TABLE[k];
    let mut a = [0.0; 4];
    for (j, kind) in f.kinds.iter().enumerate() {
        let (lo, hi) = f.core[j];
        a[j] = match kind {
            K::R => if g.r.chance(wide) { g.any() } else { g.real(lo.min(-1e300), 1e300, lo, hi, 1.0) },
            K::N => if f.name == "factorial" && g.r.chance(wide * 0.3) { g.r.logu(100.0, 1.8e19).round() } else { g.int(nmax, (hi as u64).min(nmax)) },
            K::I => if g.r.chance(wide) { (g.r.u64() as i32 >> g.r.below(32)) as f64 } else { g.r.uni(lo, hi).round() },
        };
        if j > 0 && f.kinds[0] != K::I && g.r.chance(0.04) { a[j] = a[0]; }
    }
    bound(k, &mut a, nmax as f64 * 10.0);
    a
}
/// the cost of the fractional Bessel functions grows with the order: keep it below `max`
pub fn bound(k: usize, a: &mut A, max: f64) { if TABLE[k].name.contains("bessel") || TABLE[k].name.contains("nu_") { if a[0] > max { a[0] = if a[0] < 1e300 { a[0] % max } else { max }; } } }
pub fn eval(k: usize, a: &A) -> Result<Out, String> { call(|| (TABLE[k].eval)(a)) }
pub fn show(k: usize, a: &A) -> String { format!("{}({})", TABLE[k].name, crate::engine::show(&a[..TABLE[k].kinds.len()])) }
pub fn show_out(o: &Result<Out, String>) -> String { match o { Err(m) => m.clone(), Ok((n, b)) => format!("{:?}", b[..*n].iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()) } }
