//! Properties of the library as a whole: utilities (U01), purity (S01), totality (S02), build profiles (S03).
use super::table::{self, Doc, Out, TABLE};
use crate::common::*;
use crate::engine::{cl, thread_cpu, Clause, V};
use crate::gen::{Dict, Gen, A};
use crate::rng::{ulps, Rng};
use crate::{call, tri};
use puruspe as p;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};

// ---------------------------------------------------------------- U01
extern "C" { #[link_name = "scalbln"] fn c_scalbln(x: f64, e: i64) -> f64; }
fn gen_u(g: &mut Gen) -> A {
    let x = match g.r.below(4) { 0 => g.special(), 1 => f64::from_bits(g.r.u64()), 2 => f64::from_bits(g.r.u64() >> (12 + g.r.below(52))), _ => g.any() };
    let e = match g.r.below(7) { 0 => g.r.below(41) as f64 - 20.0, 1 => (g.r.u64() as i32) as f64, 2 => g.r.uni(-2300.0, 2300.0).round(), 3 => { let b = g.r.pick(&[-1022.0, 1023.0, -1074.0, 1024.0, -2098.0, 2098.0, i32::MAX as f64, i32::MIN as f64, -969.0, -1991.0, 2046.0]); b + g.r.below(5) as f64 - 2.0 }
        4 => { let (_, k) = if x.is_finite() && x != 0.0 { (0, x.abs().log2()) } else { (0, 0.0) }; (-1074.0 - k + g.r.uni(-3.0, 60.0)).round() }
        5 => { let k = if x.is_finite() && x != 0.0 { x.abs().log2() } else { 0.0 }; (1023.0 - k + g.r.uni(-3.0, 3.0)).round() } _ => (g.r.u64() as i32 >> g.r.below(32)) as f64 };
    [x, e, 0., 0.]
}
fn j_frexp(s: &A) -> V {
    let x = s[0];
    let (m, e) = tri!(call!(p::utils::frexp(x)));
    if !x.is_finite() || x == 0.0 { return must(same(m, x) && (e == 0 || !x.is_finite()), || format!("frexp({x:?}) = ({m:?}, {e})")); }
    if !(m.abs() >= 0.5 && m.abs() < 1.0) { return V::Fail(format!("frexp({x:?}) = ({m:?}, {e}): mantissa not in [0.5, 1)")); }
    let back = tri!(call!(p::utils::ldexp(m, e)));
    must(unsafe { c_scalbln(m, e as i64) }.to_bits() == x.to_bits() && back.to_bits() == x.to_bits(), || format!("frexp({x:?}) = ({m:?}, {e}), ldexp of it = {back:?}"))
}
fn j_ldexp(s: &A) -> V {
    let (x, e) = (s[0], s[1].clamp(i32::MIN as f64, i32::MAX as f64).round() as i32);
    let v = tri!(call!(p::utils::ldexp(x, e)));
    let w = unsafe { c_scalbln(x, e as i64) };
    must(same(v, w), || format!("ldexp({x:?}, {e}) = {v:?}, x 2^e correctly rounded is {w:?}"))
}
fn gen_sign(g: &mut Gen) -> A { [g.any(), g.any(), 0., 0.] }
fn j_sign(s: &A) -> V {
    let v = tri!(call!(p::utils::sign(s[0], s[1])));
    if s[1].is_nan() { return must(v.abs() == s[0].abs() || s[0].is_nan() && v.is_nan(), || format!("sign({:?}, NaN) = {v:?}", s[0])); }
    must(same(v, s[0].copysign(s[1])), || format!("sign({:?}, {:?}) = {v:?}", s[0], s[1]))
}
pub fn u01() -> Vec<Clause> {
    vec![cl("frexp", "x = m 2^e exactly, 1/2 <= |m| < 1, inverse of ldexp; zeros, infinities, NaN unchanged", 1, gen_u, j_frexp),
         cl("ldexp", "x 2^e correctly rounded, for every x and every exponent (against the C library)", 2, gen_u, j_ldexp),
         cl("sign", "magnitude of the first argument, sign of the second", 2, gen_sign, j_sign).w(0.5)]
}

// ---------------------------------------------------------------- evaluation in another process
struct Server { child: Child, out: BufReader<std::process::ChildStdout> }
impl Server {
    fn start(exe: &str) -> std::io::Result<Server> {
        let mut child = Command::new(exe).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let out = BufReader::new(child.stdout.take().unwrap());
        Ok(Server { child, out })
    }
    fn ask(&mut self, b: &[(usize, A)]) -> std::io::Result<Vec<Result<Out, String>>> {
        let mut s = format!("{}\n", b.len());
        for (k, a) in b { s += &format!("{k} {:x} {:x} {:x} {:x}\n", a[0].to_bits(), a[1].to_bits(), a[2].to_bits(), a[3].to_bits()); }
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(s.as_bytes())?; i.flush()?;
        let mut v = vec![];
        for _ in b {
            let mut l = String::new();
            if self.out.read_line(&mut l)? == 0 { return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "server ended")); }
            let l = l.trim_end();
            v.push(if let Some(m) = l.strip_prefix("P ") { Err(m.to_string()) } else { let f: Vec<u64> = l.split(' ').map(|x| u64::from_str_radix(x, 16).unwrap()).collect(); Ok((f[0] as usize, [f[1], f[2], f[3], f[4]])) });
        }
        Ok(v)
    }
}
impl Drop for Server { fn drop(&mut self) { drop(self.child.stdin.take()); let _ = self.child.kill(); let _ = self.child.wait(); } }
/// `monitor serve`: evaluates batches from stdin
pub fn serve() {
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    loop {
        let mut l = String::new();
        if i.read_line(&mut l).unwrap_or(0) == 0 { return; }
        let n: usize = l.trim().parse().unwrap();
        let mut b = vec![];
        for _ in 0..n { l.clear(); i.read_line(&mut l).unwrap(); let f: Vec<&str> = l.split_whitespace().collect(); let h = |j: usize| f64::from_bits(u64::from_str_radix(f[j], 16).unwrap()); b.push((f[0].parse::<usize>().unwrap(), [h(1), h(2), h(3), h(4)])); }
        let mut s = String::new();
        for (k, a) in &b { match table::eval(*k, a) { Err(m) => s += &format!("P {}\n", m.replace('\n', " ")), Ok((n, v)) => s += &format!("{n:x} {:x} {:x} {:x} {:x}\n", v[0], v[1], v[2], v[3]) } }
        if o.write_all(s.as_bytes()).is_err() || o.flush().is_err() { return; }
    }
}
fn dict() -> &'static Dict { use std::sync::OnceLock; static D: OnceLock<Dict> = OnceLock::new(); D.get_or_init(Dict::load) }

// ---------------------------------------------------------------- S01 purity
fn gen_seed(g: &mut Gen) -> A { [(g.r.u64() >> 12) as f64, g.r.below(TABLE.len() as u64) as f64, 0., 0.] }
/// a batch with repeated, neighbouring and exchanged arguments, i.e. what a hidden cache would confuse
fn batch(r: Rng, k0: usize, n: usize) -> Vec<(usize, A)> {
    let mut g = Gen { r, d: dict(), prev: [1.0; 4] };
    let mut v: Vec<(usize, A)> = vec![];
    while v.len() < n {
        let c = g.r.below(8);
        if v.len() < 4 || c < 3 {
            let k = if g.r.chance(0.6) { k0 % TABLE.len() } else { g.r.below(TABLE.len() as u64) as usize };
            let w = if g.r.chance(0.3) { 0.5 } else { 0.02 };
            v.push((k, table::args(&mut g, k, w, 600)));
        } else {
            let (mut k, mut a) = v[g.r.below(v.len() as u64) as usize];
            let j = g.r.below(TABLE[k].kinds.len() as u64) as usize;
            let real = TABLE[k].kinds[j] == table::K::R;
            match c {
                3 if real => { let e = g.r.below(3) as i64 - 1; a[j] = ulps(a[j], e) }
                4 if real => a[j] = -a[j],
                5 => { // the same arguments for a sibling function
                    let q = g.r.below(TABLE.len() as u64) as usize;
                    if TABLE[q].kinds == TABLE[k].kinds { k = q }
                }
                6 if real => { let b = g.r.below(52); a[j] = f64::from_bits(a[j].to_bits() ^ 1 << b) }
                7 if TABLE[k].kinds.len() == 2 && TABLE[k].kinds[0] == table::K::R && TABLE[k].kinds[1] == table::K::R => a.swap(0, 1),
                _ => {}
            }
            table::bound(k, &mut a, 6e3);
            if TABLE[k].kinds[0] == table::K::N { a[0] = a[0].min(6e3) }
            v.push((k, a));
        }
    }
    v
}
fn diff(what: &str, b: &[(usize, A)], x: &[Result<Out, String>], y: &[Result<Out, String>]) -> Option<V> {
    for i in 0..b.len() {
        if x[i] != y[i] { return Some(V::Fail(format!("{what}: {} = {} and {}", table::show(b[i].0, &b[i].1), table::show_out(&x[i]), table::show_out(&y[i])))); }
    }
    None
}
fn evals(b: &[(usize, A)]) -> Vec<Result<Out, String>> { b.iter().map(|(k, a)| table::eval(*k, a)).collect() }
fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j); } v }
fn j_order(s: &A) -> V {
    let mut r = Rng::new(s[0].to_bits());
    let b = batch(r.clone(), s[1] as usize, 40);
    let x = evals(&b);
    for round in 0..3 {
        let o = if round == 0 { (0..b.len()).rev().collect() } else { shuffled(&mut r, b.len()) };
        let bb: Vec<_> = o.iter().map(|i| b[*i]).collect();
        let y = evals(&bb);
        let xx: Vec<_> = o.iter().map(|i| x[*i].clone()).collect();
        if let Some(v) = diff("the result depends on the calls made before", &bb, &xx, &y) { return v; }
    }
    // immediately repeated calls
    for (i, (k, a)) in b.iter().enumerate() { let y = table::eval(*k, a); let z = table::eval(*k, a); if y != x[i] || z != y { return diff("repeated call", &b[i..=i], &[z], &[y]).unwrap_or(V::Fail("repeated call differs".into())); } }
    V::Pass(0.0)
}
fn j_threads(s: &A) -> V {
    let mut r = Rng::new(s[0].to_bits());
    let b = batch(r.clone(), s[1] as usize, 48);
    let x = evals(&b);
    let barrier = std::sync::Barrier::new(3);
    let orders: Vec<Vec<usize>> = (0..3).map(|_| shuffled(&mut r, b.len())).collect();
    let res: Vec<Vec<Result<Out, String>>> = std::thread::scope(|sc| {
        let (b, barrier) = (&b, &barrier);
        let hs: Vec<_> = orders.iter().map(|o| sc.spawn(move || { barrier.wait(); o.iter().map(|i| table::eval(b[*i].0, &b[*i].1)).collect::<Vec<_>>() })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (o, y) in orders.iter().zip(&res) {
        let bb: Vec<_> = o.iter().map(|i| b[*i]).collect();
        let xx: Vec<_> = o.iter().map(|i| x[*i].clone()).collect();
        if let Some(v) = diff("concurrent evaluation in a fresh thread", &bb, &xx, y) { return v; }
    }
    V::Pass(0.0)
}
fn j_process(s: &A) -> V {
    let mut r = Rng::new(s[0].to_bits());
    let b = batch(r.clone(), s[1] as usize, 64);
    let x = evals(&b);
    let o = shuffled(&mut r, b.len());
    let bb: Vec<_> = o.iter().map(|i| b[*i]).collect();
    let me = std::env::current_exe().unwrap();
    let mut sv = Server::start(me.to_str().unwrap()).expect("server process");
    // in small pieces: the first calls of a process matter as well
    let y = match sv.ask(&bb) { Ok(y) => y, Err(e) => return V::Fail(format!("a fresh process died while evaluating ({e}): {}", bb.iter().map(|c| table::show(c.0, &c.1)).collect::<Vec<_>>().join("; "))) };
    let xx: Vec<_> = o.iter().map(|i| x[*i].clone()).collect();
    diff("evaluation in a fresh process", &bb, &xx, &y).unwrap_or(V::Pass(0.0))
}
pub fn s01() -> Vec<Clause> {
    vec![cl("order", "bit-identical results whatever calls precede, including look-alike arguments and panicking calls", 2, gen_seed, j_order).w(2.0).nomut(),
         cl("threads", "bit-identical results in three concurrent fresh threads", 2, gen_seed, j_threads).w(2.0).nomut(),
         cl("process", "bit-identical results in a fresh process", 2, gen_seed, j_process).nomut()]
}

// ---------------------------------------------------------------- S02 totality
fn gen_tot<const K_: usize>(g: &mut Gen) -> A { let w = g.r.pick(&[0.05, 0.3, 1.0]); let nm = if g.r.chance(0.01) { 200_000 } else { 2000 }; table::args(g, K_, w, nm) }
fn j_tot<const K_: usize>(s: &A) -> V {
    let f = &TABLE[K_];
    let mut a = *s;
    for (j, k) in f.kinds.iter().enumerate() { match k { table::K::N => a[j] = a[j].abs().min(if f.name == "factorial" { 2e19 } else { 4e6 }).round(), table::K::I => a[j] = a[j].clamp(-2147483648.0, 2147483647.0).round(), _ => {} } if *k != table::K::R && a[j].is_nan() { a[j] = 0.0 } }
    table::bound(K_, &mut a, 1e6);
    let t0 = thread_cpu();
    let r = table::eval(K_, &a);
    let t = thread_cpu() - t0;
    let n = if f.kinds[0] == table::K::N && f.name != "factorial" || a[0] > 1e3 && a[0] <= 1e6 && K_ >= 19 && K_ <= 22 { a[0] } else { 0.0 };
    let limit = (if cfg!(debug_assertions) { 10.0 } else { 1.0 }) * (0.5 + n * 1e-6);
    if t > limit { return V::Fail(format!("{} took {t:.3} s of CPU time", table::show(K_, &a))); }
    match (r.clone(), (f.doc)(&a)) {
        (Err(m), Doc::Never) => V::Fail(format!("{} {m}: this panic is not announced", table::show(K_, &a))),
        (Ok(_), Doc::Must) => V::Fail(format!("{} = {} instead of the announced panic", table::show(K_, &a), table::show_out(&r))),
        (Err(_), _) => V::Pass(0.0),
        (Ok((n, b)), _) => {
            let mut v = [0.0; 4];
            for i in 0..4 { v[i] = f64::from_bits(b[i]); }
            if a[..f.kinds.len()].iter().all(|x| x.is_finite() || x.is_infinite() && matches!(f.name, "Jn" | "Yn" | "In" | "Kn" | "erf" | "erfc" | "erfcx" | "dawson" | "inverf" | "inverfc" | "sign" | "ldexp")) && v[..n].iter().any(|x| x.is_nan()) && (f.defined)(&a) { return V::Fail(format!("{} = {:?}: NaN although the function is defined here", table::show(K_, &a), &v[..n])); }
            if !(f.range)(&a, &v) { return V::Fail(format!("{} = {:?}: outside the range of the function", table::show(K_, &a), &v[..n])); }
            V::Pass(0.0)
        }
    }
}
macro_rules! tot { ($($k:literal)*) => { vec![$(cl(TABLE[$k].name, "returns for any argument bits within the CPU limit, panics exactly where announced, NaN only where undefined, result within the range of the function", TABLE[$k].kinds.len(), gen_tot::<$k>, j_tot::<$k>)),*] } }
pub fn s02() -> Vec<Clause> { tot!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31) }

// ---------------------------------------------------------------- S03 build profiles
fn j_profiles<const FMA: usize>(s: &A) -> V {
    use std::cell::RefCell;
    thread_local! { static SV: RefCell<[Option<Server>; 2]> = const { RefCell::new([None, None]) }; }
    let r = Rng::new(s[0].to_bits());
    let b = profile_batch(r, s[1] as usize);
    let x = evals(&b);
    let (var, name) = [("MON_DEV", "debug"), ("MON_FMA", "fma")][FMA];
    let exe = match std::env::var(var) { Ok(e) => e, Err(_) => return V::Skip("this build does not exist here") };
    let y = SV.with(|d| {
        let d = &mut d.borrow_mut()[FMA];
        if d.is_none() { *d = Some(Server::start(&exe).expect("server process")); }
        let y = d.as_mut().unwrap().ask(&b);
        if y.is_err() { *d = None; }
        y
    });
    let y = match y { Ok(y) => y, Err(e) => return V::Fail(format!("the {name} build died ({e}) while evaluating one of {}", b.iter().map(|c| table::show(c.0, &c.1)).collect::<Vec<_>>().join("; "))) };
    let mut worst = 0.0f64;
    for i in 0..b.len() {
        let bad = match (&x[i], &y[i]) {
            (Err(_), Err(_)) => false,
            (Ok((n, u)), Ok((_, v))) => {
                let mut m = 0.0f64;
                for j in 0..*n {
                    let (p, q) = (f64::from_bits(u[j]), f64::from_bits(v[j]));
                    if u[j] == v[j] { continue; }
                    let e = (p - q).abs() / (1e-7 * (p.abs() + q.abs()) + 1e-13);
                    m = m.max(if e.is_nan() { f64::INFINITY } else { e });
                }
                worst = worst.max(m);
                m > 1.0
            }
            _ => true,
        };
        if bad { return V::Fail(format!("{}: release {}, {name} {}", table::show(b[i].0, &b[i].1), table::show_out(&x[i]), table::show_out(&y[i]))); }
    }
    V::Pass(worst)
}
fn profile_batch(r: Rng, k0: usize) -> Vec<(usize, A)> {
    let mut g = Gen { r, d: dict(), prev: [1.0; 4] };
    (0..100).map(|i| { let k = if i % 2 == 0 { k0 % TABLE.len() } else { g.r.below(TABLE.len() as u64) as usize }; let w = g.r.pick(&[0.02, 0.3, 1.0]); let nm = if g.r.chance(0.01) { 100_000 } else { 1000 }; (k, table::args(&mut g, k, w, nm)) }).collect()
}
pub fn s03() -> Vec<Clause> { vec![cl("profiles", "batches of 100 calls: the debug build (assertions, overflow checks) panics exactly where the release build does and returns the same values", 2, gen_seed, j_profiles::<0>).w(3.0).nomut(),
         cl("fma", "the same against the release build for processors with fused multiply-add (a code path of its own in the sources)", 2, gen_seed, j_profiles::<1>).nomut()] }
