//! Cached Bessel functions: results (K01) and collection behaviour against a reference model (K02).
use crate::alloc;
use crate::common::*;
use crate::engine::{cl, Clause, V};
use crate::gen::{Gen, A};
use crate::rng::{ulps, Rng};
use crate::{call, tri};
use puruspe as p;
use std::collections::BTreeMap;
use std::fmt::Debug;

type Bits = [u64; 4];
type Key = (u64, u64);
/// the four cache types behind one interface; values as bit patterns (pairs are padded with zeros)
trait Cache: Clone + PartialEq + Debug + Default {
    fn new_() -> Self;
    fn with(n: usize) -> Self;
    fn eval(&mut self, nu: f64, x: f64) -> Bits;
    fn direct(nu: f64, x: f64) -> Bits;
    fn get_(&self, nu: f64, x: f64) -> Option<Bits>;
    fn contains_(&self, nu: f64, x: f64) -> bool;
    fn clear_(&mut self);
    fn empty(&self) -> bool;
    fn len_(&self) -> usize;
    fn shrink(&mut self);
    fn reserve_(&mut self, n: usize);
    fn retain_(&mut self, f: impl FnMut(Key, Bits) -> bool);
    const NAME: &'static str;
}
fn b4(v: (f64, f64, f64, f64)) -> Bits { [v.0.to_bits(), v.1.to_bits(), v.2.to_bits(), v.3.to_bits()] }
fn b2(v: (f64, f64)) -> Bits { [v.0.to_bits(), v.1.to_bits(), 0, 0] }
macro_rules! cache { ($t:ty, $m:ident, $d:path, $b:ident) => {
    impl Cache for $t {
        const NAME: &'static str = stringify!($t);
        fn new_() -> Self { <$t>::new() }
        fn with(n: usize) -> Self { <$t>::with_capacity(n) }
        fn eval(&mut self, nu: f64, x: f64) -> Bits { $b(self.$m(nu, x)) }
        fn direct(nu: f64, x: f64) -> Bits { $b($d(nu, x)) }
        fn get_(&self, nu: f64, x: f64) -> Option<Bits> { self.get(nu, x).map(|v| $b(*v)) }
        fn contains_(&self, nu: f64, x: f64) -> bool { self.contains(nu, x) }
        fn clear_(&mut self) { self.clear() }
        fn empty(&self) -> bool { self.is_empty() }
        fn len_(&self) -> usize { self.len() }
        fn shrink(&mut self) { self.shrink_to_fit() }
        fn reserve_(&mut self, n: usize) { self.reserve(n) }
        fn retain_(&mut self, mut f: impl FnMut(Key, Bits) -> bool) { self.retain(|k, v| f((k.0.to_bits(), k.1.to_bits()), $b(v))) }
    }
} }
cache!(p::CachedBesselJY, besseljy, p::besseljy, b4);
cache!(p::CachedBesselIK, besselik, p::besselik, b4);
cache!(p::CachedJnuYnu, Jnu_Ynu, p::Jnu_Ynu, b2);
cache!(p::CachedInuKnu, Inu_Knu, p::Inu_Knu, b2);

fn f(b: u64) -> f64 { f64::from_bits(b) }
fn fs(b: &Bits) -> Vec<f64> { b.iter().map(|x| f(*x)).collect() }

// ---------------------------------------------------------------- keys
/// keys that a cache might confuse: swapped, neighbouring, signed zeros, equal sums or xors of the bits,
/// differing only in one half of the word, equal after rounding to f32
fn keys(r: &mut Rng, nu: f64, x: f64, n: usize) -> Vec<(f64, f64)> {
    let mut v = vec![(nu, x)];
    while v.len() < n {
        let (a, b) = v[r.below(v.len() as u64) as usize];
        let k = match r.below(16) {
            0 => (b, a),
            1 => (ulps(a, 1), b),
            2 => (a, ulps(b, 1)),
            3 => (ulps(a, 1), ulps(b, -1)),
            4 => (ulps(a, 1), ulps(b, 1)),
            5 => (f(a.to_bits() ^ (1 << 32)), b),
            6 => (a, f(b.to_bits() ^ (1 << 32))),
            7 => (f(a.to_bits() ^ (1 << r.below(52))), b),
            8 => (a, f(b.to_bits() ^ (1 << r.below(52)))),
            9 => (a as f32 as f64, b),
            10 => (a, b as f32 as f64),
            11 => (if r.chance(0.5) { 0.0 } else { -0.0 }, b),
            12 => (a, b + r.pick(&[1.0, 0.5, 1e-9, 1e-13])),
            13 => (a + r.pick(&[1.0, 0.5, 1e-9, 1e-13]), b),
            14 => (a.round(), b.round()),
            _ => (r.uni(0.0, 20.0), r.uni(0.1, 20.0)),
        };
        let k = if r.chance(0.04) { r.pick(&[(k.0, 0.0), (k.0, -0.0), (-k.0 - 1.0, k.1), (k.0, -k.1), (k.0, 3e4), (f64::NAN, k.1), (k.0, f64::NAN), (-1e-300, k.1)]) } else { k };
        if k.0 <= 300.0 && k.1 <= 700.0 || k.0.is_nan() || k.1.is_nan() || k.1 == 3e4 { v.push(k); } else { v.push((2.0, 1.25)); }
    }
    v
}
// ---------------------------------------------------------------- K01
fn gen_val(g: &mut Gen) -> A {
    let nu = match g.r.below(5) { 0 => g.r.below(30) as f64, 1 => g.r.below(30) as f64 + 0.5, 2 => g.r.uni(0.0, 3.0), 3 => g.real(0.0, 250.0, 0.0, 10.0, g.prev[1]), _ => g.r.uni(0.0, 40.0) };
    let x = match g.r.below(4) { 0 => g.r.uni(0.05, 10.0), 1 => g.real(1e-3, 600.0, 0.0, 20.0, g.prev[2]), 2 => g.near(2.0), _ => g.r.logu(1e-2, 600.0) };
    [(g.r.u64() >> 12) as f64, nu, x, 0.]
}
fn values<C: Cache>(s: &A) -> V {
    let mut r = Rng::new(s[0].to_bits());
    let ks = keys(&mut r, s[1], s[2], 6);
    let mut c = if r.chance(0.5) { C::new_() } else { C::with(r.below(20) as usize) };
    let mut have: Vec<usize> = vec![];
    for _ in 0..18 {
        let i = r.below(ks.len() as u64) as usize;
        let (nu, x) = ks[i];
        let eqk = |j: usize| ks[j].0.to_bits() == nu.to_bits() && ks[j].1.to_bits() == x.to_bits();
        let known = have.iter().any(|j| eqk(*j));
        let n0 = c.len_();
        if tri!(call!(c.contains_(nu, x))) != known { return V::Fail(format!("{}: contains({nu:?}, {x:?}) = {} but the key was {}evaluated", C::NAME, !known, if known { "" } else { "not " })); }
        let want = call!(C::direct(nu, x));
        let got = call!(c.eval(nu, x));
        match (&want, &got) {
            (Ok(w), Ok(g)) => {
                if w != g { return V::Fail(format!("{} at ({nu:?}, {x:?}): cached {:?}, direct {:?} (known before: {known})", C::NAME, fs(g), fs(w))); }
                if !known { have.push(i); }
                if c.get_(nu, x) != Some(*w) || !c.contains_(nu, x) || c.len_() != n0 + !known as usize { return V::Fail(format!("{} at ({nu:?}, {x:?}): the result was not stored properly", C::NAME)); }
            }
            (Err(a), Err(b)) => if a != b || c.len_() != n0 || c.contains_(nu, x) { return V::Fail(format!("{} at ({nu:?}, {x:?}): cached '{b}', direct '{a}', len {n0} -> {}", C::NAME, c.len_())); }
            _ => return V::Fail(format!("{} at ({nu:?}, {x:?}): cached {got:?}, direct {want:?}", C::NAME)),
        }
    }
    // everything that was stored is still there, unchanged
    for i in &have {
        let (nu, x) = ks[*i];
        let w = tri!(call!(C::direct(nu, x)));
        if c.get_(nu, x) != Some(w) { return V::Fail(format!("{}: get({nu:?}, {x:?}) = {:?} at the end, direct {:?}", C::NAME, c.get_(nu, x).map(|v| fs(&v)), fs(&w))); }
    }
    V::Pass(0.0)
}
pub fn k01() -> Vec<Clause> {
    vec![cl("JY_values", "CachedBesselJY returns exactly what besseljy returns, under any history of look-alike keys and panics", 3, gen_val, values::<p::CachedBesselJY>),
         cl("IK_values", "the same for CachedBesselIK", 3, gen_val, values::<p::CachedBesselIK>),
         cl("JnuYnu_values", "the same for CachedJnuYnu", 3, gen_val, values::<p::CachedJnuYnu>),
         cl("InuKnu_values", "the same for CachedInuKnu", 3, gen_val, values::<p::CachedInuKnu>)]
}
// ---------------------------------------------------------------- K02
fn gen_hist(g: &mut Gen) -> A { let n = match g.r.below(8) { 0 => g.r.uni(400.0, 4000.0), 1..=3 => g.r.uni(60.0, 400.0), _ => g.r.uni(3.0, 60.0) }; [(g.r.u64() >> 12) as f64, n.round(), 0., 0.] }
fn differs<C: Cache>(c: &C, m: &BTreeMap<Key, Bits>, ks: &[(f64, f64)]) -> Option<String> {
    if c.len_() != m.len() { return Some(format!("len() = {}, {} keys expected", c.len_(), m.len())); }
    if c.empty() != m.is_empty() { return Some(format!("is_empty() = {}, len {}", c.empty(), m.len())); }
    for (nu, x) in ks {
        let w = m.get(&(nu.to_bits(), x.to_bits()));
        if c.contains_(*nu, *x) != w.is_some() { return Some(format!("contains({nu:?}, {x:?}) = {}", w.is_none())); }
        let g = c.get_(*nu, *x);
        if g.as_ref() != w { return Some(format!("get({nu:?}, {x:?}) = {g:?}, expected {w:?}")); }
    }
    None
}
fn history<C: Cache>(s: &A) -> V {
    let mut r = Rng::new(s[0].to_bits());
    let nops = s[1].clamp(1.0, 5000.0) as usize;
    let nk = 4 + r.below((nops as u64 / 2).clamp(4, 900)) as usize;
    let (nu0, x0) = (r.uni(0.0, 9.0), r.uni(0.2, 9.0));
    let ks = keys(&mut r, nu0, x0, nk);
    let mut cs: Vec<(C, BTreeMap<Key, Bits>)> = vec![(if r.chance(0.3) { C::default() } else if r.chance(0.5) { C::new_() } else { C::with(r.below(50) as usize) }, BTreeMap::new())];
    let mut trace: Vec<String> = vec![];
    let pe = r.uni(0.3, 0.9);
    for step in 0..nops {
        let ci = r.below(cs.len() as u64) as usize;
        let (nu, x) = ks[r.below(nk as u64) as usize];
        let key = (nu.to_bits(), x.to_bits());
        let op = if r.chance(pe) { 0 } else { 1 + r.below(14) };
        trace.push(format!("{ci}:{op}"));
        let n = cs.len();
        let (c, m) = &mut cs[ci];
        let mut bad: Option<String> = None;
        match op {
            0 | 1 => match call!(c.eval(nu, x)) {
                Ok(v) => { let w = *m.entry(key).or_insert_with(|| call!(C::direct(nu, x)).unwrap_or([!0; 4])); if w != v { bad = Some(format!("eval({nu:?}, {x:?}) = {:?}, expected {:?}", fs(&v), fs(&w))); } }
                Err(_) => if m.contains_key(&key) || call!(C::direct(nu, x)).is_ok() { bad = Some(format!("eval({nu:?}, {x:?}) panicked")); }
            },
            2 => { let g = tri!(call!(c.get_(nu, x))); if g.as_ref() != m.get(&key) { bad = Some(format!("get({nu:?}, {x:?}) = {g:?}")); } }
            3 => if tri!(call!(c.contains_(nu, x))) != m.contains_key(&key) { bad = Some(format!("contains({nu:?}, {x:?}) is wrong")); },
            4 => if r.chance(0.15) { tri!(call!(c.clear_())); m.clear(); },
            5 => tri!(call!(c.reserve_(r.below(200) as usize))),
            6 => tri!(call!(c.shrink())),
            7 | 8 => {
                // the predicate sees every entry once, with its exact key and value, and decides
                let (sel, th) = (r.u64(), r.below(5));
                let keep = |k: Key| (k.0 ^ k.1.rotate_left(17) ^ sel).wrapping_mul(0x9e3779b97f4a7c15) >> 61 >= th;
                let mut seen: Vec<(Key, Bits)> = vec![];
                tri!(call!(c.retain_(|k, v| { seen.push((k, v)); keep(k) })));
                let want: Vec<(Key, Bits)> = m.iter().map(|(k, v)| (*k, *v)).collect();
                seen.sort();
                if seen != want { bad = Some(format!("retain visited {} entries, {} expected, or wrong keys or values", seen.len(), want.len())); }
                m.retain(|k, _| keep(*k));
            }
            9 => {
                // a predicate that panics half-way: the entries it kept or never saw stay, whether the others are
                // gone is unspecified, but none is invented or changed
                let at = r.below(m.len() as u64 + 2);
                let mut i = 0;
                let mut rejected: Vec<Key> = vec![];
                let res = call!(c.retain_(|k, _| { i += 1; let keep = i <= at && i % 3 != 0; if !keep { rejected.push(k); } if i > at { panic!("predicate") } keep }));
                if res.is_err() != (at < m.len() as u64) { bad = Some("retain swallowed or invented a panic".into()); }
                m.retain(|k, _| !rejected.contains(k) || c.contains_(f(k.0), f(k.1)));
                if let Some(k) = m.keys().find(|k| !c.contains_(f(k.0), f(k.1))) { bad = Some(format!("a panic of retain's predicate lost the entry ({:?}, {:?}), which it kept or never saw", f(k.0), f(k.1))); }
            }
            10 if n < 5 => { let d = (tri!(call!(c.clone())), m.clone()); cs.push(d); }
            11 if n > 1 => { cs.swap_remove(ci); }
            12 | 13 => {
                // equality means equal contents, whatever the history and capacity (a NaN value equals nothing)
                let j = r.below(n as u64) as usize;
                let (a, b) = (&cs[ci], &cs[j]);
                let nan = |m: &BTreeMap<Key, Bits>| m.values().any(|v| v.iter().any(|y| f(*y).is_nan()));
                let want = a.1 == b.1 && !nan(&a.1);
                let got = tri!(call!(a.0 == b.0));
                if got != want && !(nan(&a.1) && nan(&b.1)) { return V::Fail(format!("{} step {step}: == is {got} for {} contents (sizes {}, {})", C::NAME, if want { "equal" } else { "different" }, a.1.len(), b.1.len())); }
                if ci == 0 && !nan(&a.1) {
                    // rebuild the same contents in another order
                    let mut d = C::with(r.below(3) as usize * 40);
                    let mut l: Vec<Key> = a.1.keys().cloned().collect();
                    if l.len() <= 64 {
                        for i in (1..l.len()).rev() { let j = r.below(i as u64 + 1) as usize; l.swap(i, j); }
                        for k in &l { tri!(call!(d.eval(f(k.0), f(k.1)))); }
                        if a.0 != d || d != a.0 { return V::Fail(format!("{} step {step}: caches with the same {} entries compare unequal", C::NAME, l.len())); }
                    }
                }
                continue;
            }
            _ => if m.len() < 40 && tri!(call!(format!("{c:?}"))).is_empty() { bad = Some("empty Debug output".into()); },
        }
        if bad.is_none() && ci < cs.len() && (r.chance(0.02) || op == 4 || op == 9 || nops < 40) { bad = differs(&cs[ci].0, &cs[ci].1, &ks); }
        if let Some(b) = bad { return V::Fail(format!("{} after {step} operations ({}): {b}", C::NAME, trace[trace.len().saturating_sub(12)..].join(" "))); }
    }
    // no operation on one cache may have changed another one
    for (c, m) in &cs { if let Some(b) = differs(c, m, &ks) { return V::Fail(format!("{} at the end of {nops} operations: {b}", C::NAME)); } }
    V::Pass(0.0)
}
fn gen_cap(g: &mut Gen) -> A { [(g.r.u64() >> 12) as f64, match g.r.below(3) { 0 => g.r.below(8) as f64, 1 => g.r.below(200) as f64, _ => (1u64 << g.r.below(10)) as f64 + g.r.below(3) as f64 - 1.0 }, 0., 0.] }
fn capacity<C: Cache>(s: &A) -> V {
    let n = s[1].clamp(0.0, 2000.0) as usize;
    let mut r = Rng::new(s[0].to_bits());
    let pts: Vec<(f64, f64)> = (0..2 * n + 1).map(|i| (r.uni(0.0, 4.0), 1.0 + i as f64 * 0.01)).collect();
    let (a0, l0) = alloc::stats();
    let e = [C::new_(), C::with(0), C::default()];
    if alloc::stats() != (a0, l0) { return V::Fail(format!("{}: an empty cache without capacity allocates", C::NAME)); }
    drop(e);
    let mut c = C::with(n);
    let a1 = alloc::stats().0;
    for k in &pts[..n] { c.eval(k.0, k.1); }
    let grew = alloc::stats().0 - a1;
    if grew != 0 { return V::Fail(format!("{}::with_capacity({n}) allocated {grew} more times while {n} values were inserted", C::NAME)); }
    c.reserve_(n + 1);
    let a2 = alloc::stats().0;
    for k in &pts[n..] { c.eval(k.0, k.1); }
    let grew = alloc::stats().0 - a2;
    if grew != 0 { return V::Fail(format!("{}: {grew} allocations while inserting {} values after reserve({})", C::NAME, n + 1, n + 1)); }
    if c.len_() != 2 * n + 1 { return V::Fail(format!("{}: len() = {} after {} insertions", C::NAME, c.len_(), 2 * n + 1)); }
    let l1 = alloc::stats().1;
    c.clear_();
    if alloc::stats().1 != l1 { return V::Fail(format!("{}: clear() released memory", C::NAME)); }
    let a3 = alloc::stats().0;
    for k in &pts { c.eval(k.0, k.1); }
    let grew = alloc::stats().0 - a3;
    if grew != 0 { return V::Fail(format!("{}: {grew} allocations while refilling a cleared cache", C::NAME)); }
    c.retain_(|k, _| k.1 == pts[0].1.to_bits());
    c.shrink();
    if c.get_(pts[0].0, pts[0].1) != Some(C::direct(pts[0].0, pts[0].1)) || c.len_() != 1 { return V::Fail(format!("{}: retain and shrink_to_fit lost the retained entry", C::NAME)); }
    if n > 50 && alloc::stats().1 - l0 > l1 / 4 + 4096 + pts.capacity() as i64 * 16 { return V::Fail(format!("{}: shrink_to_fit kept {} bytes of {} for one entry", C::NAME, alloc::stats().1 - l0, l1)); }
    V::Pass(0.0)
}
fn cap(s: &A) -> V {
    // panics must not be caught inside the allocation counts: evaluate everything inside one call
    match crate::engine::call(|| match s[0] as u64 % 4 { 0 => capacity::<p::CachedBesselJY>(s), 1 => capacity::<p::CachedBesselIK>(s), 2 => capacity::<p::CachedJnuYnu>(s), _ => capacity::<p::CachedInuKnu>(s) }) { Ok(v) => v, Err(m) => V::Fail(m) }
}
/// many entries in one cache: none is ever dropped
fn gen_bulk(g: &mut Gen) -> A { [(g.r.u64() >> 12) as f64, g.r.logu(500.0, 150_000.0).floor(), g.r.below(4) as f64, 0.] }
fn bulk<C: Cache>(s: &A) -> V {
    let mut r = Rng::new(s[0].to_bits());
    let n = s[1].clamp(1.0, 200_000.0) as usize;
    let x0 = r.uni(0.5, 2.5);
    let kind = r.below(4);
    let key = |i: usize| match kind {
        0 => (f(x0.to_bits() + i as u64), x0),
        1 => (x0, f(x0.to_bits() + i as u64)),
        2 => ((i % 317) as f64 * 0.01, x0 + (i / 317) as f64 * 0.001),
        _ => (x0 + (i as f64) * 1e-5, x0),
    };
    let mut c = if r.chance(0.5) { C::new_() } else { C::with(r.below(3000) as usize) };
    let step = (n / 16).max(1);
    for i in 0..n {
        let k = key(i);
        tri!(call!(c.eval(k.0, k.1)));
        if i % step == 0 || i + 1 == n {
            if c.len_() != i + 1 { return V::Fail(format!("{}: len() = {} after {} different keys were evaluated", C::NAME, c.len_(), i + 1)); }
            for _ in 0..8 {
                let k = key(r.below(i as u64 + 1) as usize);
                if c.get_(k.0, k.1) != Some(tri!(call!(C::direct(k.0, k.1)))) { return V::Fail(format!("{}: the entry of {k:?} is lost or changed after {} evaluations", C::NAME, i + 1)); }
            }
        }
    }
    if let Some(i) = (0..n).find(|i| { let k = key(*i); !c.contains_(k.0, k.1) }) { return V::Fail(format!("{}: the entry of {:?} is lost after {n} evaluations", C::NAME, key(i))); }
    let d = c.clone();
    let th = r.u64();
    let keep = |k: Key| (k.0 ^ k.1.rotate_left(17)).wrapping_mul(0x9e3779b97f4a7c15) < th;
    let want = (0..n).filter(|i| { let k = key(*i); keep((k.0.to_bits(), k.1.to_bits())) }).count();
    let mut seen = 0;
    c.retain_(|k, _| { seen += 1; keep(k) });
    if seen != n || c.len_() != want || d.len_() != n { return V::Fail(format!("{}: retain saw {seen} of {n} entries and kept {} of {want}; the clone holds {}", C::NAME, c.len_(), d.len_())); }
    if let Some(i) = (0..n).find(|i| { let k = key(*i); c.contains_(k.0, k.1) != keep((k.0.to_bits(), k.1.to_bits())) }) { return V::Fail(format!("{}: retain kept or dropped the wrong entry {:?} of {n}", C::NAME, key(i))); }
    V::Pass(0.0)
}
fn bulk_any(s: &A) -> V { match s[2] as u64 % 4 { 0 => bulk::<p::CachedBesselJY>(s), 1 => bulk::<p::CachedBesselIK>(s), 2 => bulk::<p::CachedJnuYnu>(s), _ => bulk::<p::CachedInuKnu>(s) } }
pub fn k02() -> Vec<Clause> {
    vec![cl("JY_history", "random operation histories of CachedBesselJY against a map model", 2, gen_hist, history::<p::CachedBesselJY>).nomut(),
         cl("IK_history", "the same for CachedBesselIK", 2, gen_hist, history::<p::CachedBesselIK>).nomut(),
         cl("JnuYnu_history", "the same for CachedJnuYnu", 2, gen_hist, history::<p::CachedJnuYnu>).nomut(),
         cl("InuKnu_history", "the same for CachedInuKnu", 2, gen_hist, history::<p::CachedInuKnu>).nomut(),
         cl("bulk", "up to 150000 entries in one cache: none is lost", 3, gen_bulk, bulk_any).nomut().w(0.6),
         cl("capacity", "documented capacity behaviour, observed by counting allocations", 2, gen_cap, cap).w(0.5)]
}
// ---------------------------------------------------------------- K03
/// CPU time of the fastest of n calls
fn fastest(n: usize, mut f: impl FnMut()) -> f64 {
    let mut best = f64::INFINITY;
    for _ in 0..n { let t = crate::engine::thread_cpu(); f(); best = best.min(crate::engine::thread_cpu() - t); }
    best
}
fn gen_hit(g: &mut Gen) -> A {
    let (nu, x) = match g.r.below(4) { 0 | 1 => (g.r.uni(0.0, 30.0), g.r.uni(1500.0, 9000.0)), 2 => (g.r.uni(2000.0, 9500.0), g.r.uni(0.1, 500.0)), _ => (g.int(9000, 9000), g.r.uni(0.1, 9000.0)) };
    [(g.r.u64() >> 12) as f64, nu, x, g.r.below(4) as f64]
}
fn hit<C: Cache>(s: &A) -> V {
    let (mut r, nu, x) = (Rng::new(s[0].to_bits()), s[1], s[2]);
    let want = tri!(call!(C::direct(nu, x)));
    let direct = fastest(3, || { std::hint::black_box(C::direct(std::hint::black_box(nu), x)); });
    if direct < 10e-6 { return V::Skip("computed too fast to tell"); }
    let mut c = if r.chance(0.5) { C::new_() } else { C::with(r.below(100) as usize) };
    tri!(call!(c.eval(nu, x)));
    let mut worst = 0.0f64;
    let mut log = String::new();
    for _ in 0..1 + r.below(4) {
        let op = r.below(9);
        match op {
            0 => { let n = r.logu(1.0, 6000.0) as usize; log += &format!(" {n} evaluations at the same order;"); for i in 0..n { tri!(call!(c.eval(if nu < 100.0 { nu } else { 2.5 }, 0.5 + i as f64 * 1e-4))); } }
            1 => { let n = r.logu(1.0, 300.0) as usize; log += &format!(" {n} evaluations at the same argument;"); for i in 0..n { tri!(call!(c.eval(i as f64 * 0.1, x))); } }
            2 => { let n = r.logu(1.0, 6000.0) as usize; log += &format!(" {n} evaluations elsewhere;"); for _ in 0..n { tri!(call!(c.eval(r.uni(0.0, 9.0), r.uni(0.1, 9.0)))); } }
            3 => { log += " clear and evaluate;"; c.clear_(); tri!(call!(c.eval(nu, x))); }
            4 => { log += " clone;"; c = c.clone(); }
            5 => { log += " reserve;"; c.reserve_(r.below(5000) as usize); }
            6 => { log += " shrink_to_fit;"; c.shrink(); }
            7 => { log += " retain;"; c.retain_(|k, _| k.0 == nu.to_bits()); }
            _ => { log += " a panicking evaluation;"; let _ = call!(c.eval(nu, -x)); }
        }
        let mut ok = true;
        let cached = fastest(12, || { ok &= c.eval(nu, x) == want; });
        if !ok { return V::Fail(format!("{} after{log} the value at ({nu:?}, {x:?}) is not that of the direct evaluation", C::NAME)); }
        if cached > 0.5 * direct { return V::Fail(format!("{} after{log} evaluating ({nu:?}, {x:?}) again takes {cached:e} s, as computing it does ({direct:e} s)", C::NAME)); }
        worst = worst.max(cached / (0.5 * direct));
    }
    V::Pass(worst)
}
pub fn k03() -> Vec<Clause> {
    vec![cl("JY_hits", "a result held by CachedBesselJY is not computed again (CPU time)", 3, gen_hit, hit::<p::CachedBesselJY>).nomut(),
         cl("IK_hits", "the same for CachedBesselIK", 3, gen_hit, hit::<p::CachedBesselIK>).nomut(),
         cl("JnuYnu_hits", "the same for CachedJnuYnu", 3, gen_hit, hit::<p::CachedJnuYnu>).nomut(),
         cl("InuKnu_hits", "the same for CachedInuKnu", 3, gen_hit, hit::<p::CachedInuKnu>).nomut()]
}
