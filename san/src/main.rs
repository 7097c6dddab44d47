//! Workload for sanitizers and Miri: several threads call every public function on the same hostile
//! arguments, started together, and share caches. The verdict is the sanitizer's (or Miri's); results
//! are also compared between threads (not under Miri, whose floating-point intrinsics are randomised).
//! san <seed> <seconds> <threads> <batch> <nmax>
#[path = "../../monitor/src/gen.rs"]
mod gen;
#[path = "../../monitor/src/rng.rs"]
mod rng;
#[path = "../../monitor/src/props/table.rs"]
#[allow(dead_code)]
mod table;
mod engine {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| "panicked".to_string()) }
    pub fn show(a: &[f64]) -> String { a.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(", ") }
}
use gen::{Dict, Gen, A};
use puruspe as p;
use rng::{ulps, Rng};
use std::collections::HashSet;
use std::sync::{Barrier, RwLock};
use std::time::Instant;
use table::TABLE;

// ------------------------------------------------------------------ are the caches Send and Sync?
struct Probe<T>(#[allow(dead_code)] std::marker::PhantomData<T>);
trait Not { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
impl<T> Not for &Probe<T> {}
impl<T: Send> Probe<T> { #[allow(dead_code)] fn send(&self) -> bool { true } }
impl<T: Sync> Probe<T> { #[allow(dead_code)] fn sync(&self) -> bool { true } }
macro_rules! probe { ($($t:ty),*) => { $( let q = &Probe::<$t>(std::marker::PhantomData); println!("TRAITS {} send={} sync={}", stringify!($t), q.send(), q.sync()); )* } }
/// shares a value between threads even if its type should not be Sync (reported separately)
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

#[derive(Default)]
struct Caches { jy: p::CachedBesselJY, ik: p::CachedBesselIK, j: p::CachedJnuYnu, i: p::CachedInuKnu }

fn dict() -> Dict {
    // under Miri the literals of the sources are handed over, scanning the files would take minutes
    if let Ok(s) = std::env::var("MON_LITS") {
        let lits: Vec<f64> = s.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits).collect();
        if !lits.is_empty() { return Dict { tables: lits.clone(), lits }; }
    }
    Dict::load()
}
fn batch(g: &mut Gen, n: usize, nmax: u64) -> Vec<(usize, A)> {
    let mut v: Vec<(usize, A)> = vec![];
    let focus = g.r.below(TABLE.len() as u64) as usize;
    while v.len() < n {
        if v.len() > 2 && g.r.chance(0.3) {
            let (k, mut a) = v[g.r.below(v.len() as u64) as usize];
            let j = g.r.below(TABLE[k].kinds.len() as u64) as usize;
            if TABLE[k].kinds[j] == table::K::R { a[j] = ulps(a[j], g.r.below(3) as i64 - 1); }
            table::bound(k, &mut a, nmax as f64 * 10.0);
            v.push((k, a));
            continue;
        }
        let k = if g.r.chance(0.3) { focus } else { g.r.below(TABLE.len() as u64) as usize };
        let w = g.r.pick(&[0.02, 0.2, 1.0]);
        let a = table::args(g, k, w, nmax);
        v.push((k, a));
    }
    v
}
/// what a call costs under an interpreter: skip the few calls with very long loops
fn heavy(k: usize, a: &A) -> bool {
    cfg!(miri) && (matches!(TABLE[k].name, "besseljy" | "besselik" | "Jnu_Ynu" | "Inu_Knu") && (a[1] > 60.0 || a[0] > 200.0) || matches!(TABLE[k].name, "Jn" | "In") && a[1].abs() > 200.0 && a[0] > 1.0 || TABLE[k].name == "betai" && (a[0] > 1e5 || a[1] > 1e5))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, secs, nt, nb, nmax): (u64, f64, usize, usize, u64) = (a[1].parse::<i64>().unwrap() as u64, a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    probe!(p::CachedBesselJY, p::CachedBesselIK, p::CachedJnuYnu, p::CachedInuKnu);
    let d = dict();
    let t0 = Instant::now();
    let (mut rounds, mut calls, mut panics, mut shared) = (0u64, 0u64, 0u64, 0u64);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut perfn = [0u64; 32];
    let mut sample = String::new();
    while rounds == 0 || t0.elapsed().as_secs_f64() < secs {
        rounds += 1;
        let bs = seed.wrapping_mul(1_000_003).wrapping_add(rounds);
        let mut g = Gen { r: Rng::new(bs), d: &d, prev: [1.0; 4] };
        let b: Vec<(usize, A)> = batch(&mut g, nb, nmax).into_iter().filter(|(k, a)| !heavy(*k, a)).collect();
        let orders: Vec<Vec<usize>> = (0..nt).map(|t| { let mut v: Vec<usize> = (0..b.len()).collect(); if t > 0 || g.r.chance(0.5) { for i in (1..v.len()).rev() { let j = g.r.below(i as u64 + 1) as usize; v.swap(i, j); } } v }).collect();
        // half of the rounds: all threads in the same order, so that the same call runs everywhere at once
        let lockstep = g.r.chance(0.5);
        let bar = Barrier::new(nt);
        let mut filled = Caches::default();
        let keys: Vec<(f64, f64)> = (0..4).map(|_| (g.r.uni(0.0, 6.0), g.r.uni(0.1, 9.0))).collect();
        for k in &keys { filled.jy.besseljy(k.0, k.1); filled.ik.besselik(k.0, k.1); filled.j.Jnu_Ynu(k.0, k.1); filled.i.Inu_Knu(k.0, k.1); }
        let shared_ro = Shared(filled);
        let shared_rw = Shared(RwLock::new(Caches::default()));
        let res: Vec<(Vec<Result<table::Out, String>>, Vec<u64>)> = std::thread::scope(|s| {
            let (b, bar, ro, rw, keys, orders) = (&b, &bar, &shared_ro, &shared_rw, &keys, &orders);
            let hs: Vec<_> = (0..nt).map(|t| s.spawn(move || {
                let ro: &Shared<Caches> = ro; let rw: &Shared<RwLock<Caches>> = rw;
                let mut out = vec![Err(String::new()); b.len()];
                bar.wait();
                for &i in &orders[if lockstep { 0 } else { t }] { out[i] = table::eval(b[i].0, &b[i].1); }
                let mut c = vec![];
                for (n, k) in keys.iter().enumerate() {
                    c.push(ro.0.jy.get(k.0, k.1).map_or(0, |v| v.0.to_bits()));
                    c.push(ro.0.ik.get(k.0, k.1).map_or(0, |v| v.1.to_bits()));
                    c.push(ro.0.j.get(k.0, k.1).map_or(0, |v| v.0.to_bits()));
                    c.push(ro.0.i.get(k.0, k.1).map_or(0, |v| v.1.to_bits()));
                    if (n + t) % 2 == 0 {
                        let mut w = rw.0.write().unwrap_or_else(|e| e.into_inner());
                        w.jy.besseljy(k.0, k.1); w.ik.besselik(k.0, k.1); w.j.Jnu_Ynu(k.0, k.1); w.i.Inu_Knu(k.0, k.1);
                    } else {
                        let r = rw.0.read().unwrap_or_else(|e| e.into_inner());
                        std::hint::black_box((r.jy.get(k.0, k.1).is_some(), r.ik.contains(k.0, k.1), r.j.len(), r.i.is_empty()));
                    }
                }
                (out, c)
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        shared += (keys.len() * 4 * nt) as u64;
        calls += (b.len() * nt) as u64;
        for (i, (k, a)) in b.iter().enumerate() {
            perfn[*k] += nt as u64;
            if res[0].0[i].is_err() { panics += 1; }
            if distinct.len() < 3_000_000 { let mut h = *k as u64 + 1; for x in a { h = (h ^ x.to_bits()).wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 32; } distinct.insert(h); }
            if !cfg!(miri) { for r in &res[1..] { if r.0[i] != res[0].0[i] {
                println!("MISMATCH round {rounds} {} = {} and {} in concurrent threads", table::show(*k, a), table::show_out(&res[0].0[i]), table::show_out(&r.0[i]));
                std::process::exit(70);
            } } }
        }
        if !cfg!(miri) && res.iter().any(|r| r.1 != res[0].1) { println!("MISMATCH round {rounds} a shared cache returned different values to concurrent readers"); std::process::exit(70); }
        if rounds == 1 || sample.is_empty() { if let Some((k, a)) = b.get(1) { sample = format!("{} in {nt} threads", table::show(*k, a)); } }
    }
    println!("SUMMARY rounds={rounds} calls={calls} distinct={} panics={panics} cache_calls={shared} functions={} SAMPLE {sample}", distinct.len(), perfn.iter().filter(|n| **n > 0).count());
}
