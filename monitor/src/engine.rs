//! Runs the code under test on generated inputs while monitors judge every observed result.
//! Worker threads publish the call in flight in a shared memory-mapped page so that a hang
//! (CPU-time watchdog) or a crash of the process (parent) can be attributed to its input.
use crate::gen::{Dict, Gen, A, NA};
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum V { Pass(f64), Skip(&'static str), Fail(String) }

pub struct Clause {
    pub name: &'static str,
    pub what: &'static str,
    pub n: usize,
    pub weight: f64,
    pub mutate: bool,
    pub gen: fn(&mut Gen) -> A,
    pub judge: fn(&A) -> V,
}
pub fn cl(name: &'static str, what: &'static str, n: usize, gen: fn(&mut Gen) -> A, judge: fn(&A) -> V) -> Clause {
    Clause { name, what, n, weight: 1.0, mutate: true, gen, judge }
}
impl Clause {
    pub fn w(mut self, w: f64) -> Clause { self.weight = w; self }
    pub fn nomut(mut self) -> Clause { self.mutate = false; self }
}

// ------------------------------------------------------------------ in-flight slots
pub const SLOT: usize = 128; // bytes: [seq, state, clause, n, args x NA, clockid]
pub const NSLOT: usize = 64;
static mut SLOTS: *mut u64 = std::ptr::null_mut();
thread_local! {
    static MYSLOT: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
    static NCALL: Cell<u64> = const { Cell::new(0) };
}
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("slots file");
    f.set_len((SLOT * NSLOT) as u64).unwrap();
    unsafe {
        SLOTS = mmap(std::ptr::null_mut(), SLOT * NSLOT, 3, 1, f.as_raw_fd(), 0) as *mut u64;
        assert!(SLOTS as isize != -1);
    }
}
pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); } }
fn cpu_of(clk: i32) -> f64 { let mut t = [0i64; 2]; if unsafe { clock_gettime(clk, &mut t) } == 0 { t[0] as f64 + t[1] as f64 * 1e-9 } else { 0.0 } }
/// CPU seconds of the calling thread
pub fn thread_cpu() -> f64 { cpu_of(3) }
pub fn bind_slot(i: usize) {
    unsafe {
        if SLOTS.is_null() { return; }
        let p = SLOTS.add(i * SLOT / 8);
        let mut c = 0i32;
        pthread_getcpuclockid(pthread_self(), &mut c);
        p.add(4 + NA).write_volatile(c as u32 as u64);
        MYSLOT.with(|m| m.set(p));
    }
}
fn note_case(ci: usize, n: usize, a: &A) {
    let p = MYSLOT.with(|m| m.get());
    if p.is_null() { return; }
    unsafe { p.add(2).write_volatile(ci as u64); p.add(3).write_volatile(n as u64); for i in 0..NA { p.add(4 + i).write_volatile(a[i].to_bits()); } }
}
/// Runs code under test: panics become `Err`, and the watchdog knows we are inside.
#[inline]
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let p = MYSLOT.with(|m| m.get());
    NCALL.with(|c| c.set(c.get() + 1));
    if !p.is_null() { unsafe { p.write_volatile(p.read_volatile() + 1); p.add(1).write_volatile(1); } }
    let r = catch_unwind(AssertUnwindSafe(f));
    if !p.is_null() { unsafe { p.add(1).write_volatile(0); } }
    r.map_err(|e| {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        format!("panicked: {m}")
    })
}
pub fn read_slots(path: &str) -> Vec<(bool, usize, Vec<f64>)> {
    let b = std::fs::read(path).unwrap_or_default();
    let u: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    u.chunks_exact(SLOT / 8).filter(|s| s[0] > 0).map(|s| (s[1] == 1, s[2] as usize, (0..(s[3] as usize).min(NA)).map(|i| f64::from_bits(s[4 + i])).collect())).collect()
}

// ------------------------------------------------------------------ statistics
#[derive(Default)]
struct Stat { evals: u64, judged: u64, skips: BTreeMap<&'static str, u64>, worst: f64, worst_at: A, cells: HashMap<u64, (f64, A)>, samples: Vec<(A, f64)>, calls: u64, over10: u64 }

pub struct Fail { pub clause: &'static str, pub args: Vec<f64>, pub msg: String }

pub fn hash(a: &[f64], salt: u64) -> u64 {
    let mut h = salt ^ 0x9e3779b97f4a7c15;
    for x in a { h = (h ^ x.to_bits()).wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 32; h = h.wrapping_mul(0xc4ceb9fe1a85ec53); h ^= h >> 29; }
    h
}
/// sign, exponent and two mantissa bits of every argument
fn cell(a: &[f64]) -> u64 { let v: Vec<f64> = a.iter().map(|x| f64::from_bits(x.to_bits() & 0xfffc_0000_0000_0000)).collect(); hash(&v, 1) }

pub fn show(a: &[f64]) -> String { a.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(", ") }

pub struct Opts { pub seed: u64, pub budget: f64, pub threads: usize, pub profile: &'static str, pub stop_on_fail: bool }

pub struct Report { pub json: String, pub evals: u64, pub judged: u64, pub distinct: u64, pub fails: Vec<Fail> }

const DBITS: usize = 1 << 28;

pub fn jf(x: f64) -> String { if x.is_finite() { format!("{:e}", x) } else { format!("\"{x}\"") } }
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}

/// listed known findings of a property: (clause, argument bits in hex, description)
pub fn open_findings(id: &str) -> Vec<(String, String, String)> {
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let known = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    known.lines().filter_map(|l| { let f: Vec<&str> = l.split('|').map(|x| x.trim()).collect(); if f.len() >= 4 && f[0] == format!("open: property={id}") { Some((f[1].into(), f[2].into(), f[3].into())) } else { None } }).collect()
}
pub fn hexargs(a: &[f64]) -> String { a.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",") }

pub fn run(prop: &str, clauses: &[Clause], o: &Opts, on_hang: &(dyn Fn(Fail) + Sync)) -> Report {
    let dict = Dict::load();
    let open = open_findings(prop);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let bits: Vec<AtomicU64> = (0..DBITS / 64).map(|_| AtomicU64::new(0)).collect();
    let distinct: Vec<AtomicU64> = clauses.iter().map(|_| AtomicU64::new(0)).collect();
    let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let stats: Mutex<Vec<Stat>> = Mutex::new(clauses.iter().map(|_| Stat::default()).collect());
    let wsum: f64 = clauses.iter().map(|c| c.weight).sum();
    let pid = hash(&[], prop.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)));
    std::thread::scope(|s| {
        let (open, dict, stop, bits, distinct, fails, stats) = (&open, &dict, &stop, &bits, &distinct, &fails, &stats);
        let hs: Vec<_> = (0..o.threads).map(|t| s.spawn(move || {
            bind_slot(t);
            for (ci, c) in clauses.iter().enumerate() {
                let mut st = Stat::default();
                let mut g = Gen { r: Rng::new(o.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ pid ^ ((ci as u64) << 32) ^ ((t as u64) << 48)), d: dict, prev: [1.0; NA] };
                let budget = Duration::from_secs_f64(o.budget * c.weight / wsum);
                let t0 = Instant::now();
                let mut pool: Vec<A> = vec![];
                let mut k = 0u64;
                let n0 = NCALL.with(|c| c.get());
                loop {
                    if (k & 15 == 0 || t0.elapsed() > budget) && (t0.elapsed() > budget || stop.load(Relaxed)) && k >= 4 { break; }
                    if stop.load(Relaxed) { break; }
                    k += 1;
                    let a = if c.mutate && !pool.is_empty() && g.r.chance(0.25) { let p = pool[g.r.below(pool.len() as u64) as usize]; g.mutate(&p, c.n) } else { (c.gen)(&mut g) };
                    note_case(ci, c.n, &a);
                    g.prev = a;
                    st.evals += 1;
                    // a panic outside call() is a defect of the monitor and must not be mistaken for a verdict
                    let v = (c.judge)(&a);
                    match v {
                        V::Fail(_) if open.iter().any(|f| f.0 == c.name && f.1 == hexargs(&a[..c.n])) => { *st.skips.entry("listed known finding reproduced").or_insert(0) += 1; }
                        V::Skip(why) => { *st.skips.entry(why).or_insert(0) += 1; }
                        V::Pass(r) => {
                            st.judged += 1;
                            if r > 0.1 { st.over10 += 1; }
                            let h = hash(&a[..c.n], ci as u64);
                            let (w, b) = ((h as usize % DBITS) / 64, 1u64 << (h & 63));
                            if bits[w].load(Relaxed) & b == 0 && bits[w].fetch_or(b, Relaxed) & b == 0 { distinct[ci].fetch_add(1, Relaxed); }
                            if st.samples.len() < 1 && k > 3 { st.samples.push((a, r)); }
                            if r > st.worst { st.worst = r; st.worst_at = a; }
                            if st.cells.len() < 200_000 || st.cells.contains_key(&cell(&a[..c.n])) {
                                let e = st.cells.entry(cell(&a[..c.n])).or_insert((-1.0, a));
                                if r > e.0 { *e = (r, a); if c.mutate && r > 0.3 * st.worst { if pool.len() < 256 { pool.push(a) } else { let i = g.r.below(256) as usize; pool[i] = a; } } }
                            }
                        }
                        V::Fail(m) => {
                            let mut f = fails.lock().unwrap();
                            if f.iter().filter(|x| x.clause == c.name).count() < 3 { f.push(Fail { clause: c.name, args: a[..c.n].to_vec(), msg: m }); }
                            if o.stop_on_fail { stop.store(true, Relaxed); break; }
                            if f.len() > 60 { stop.store(true, Relaxed); break; }
                        }
                    }
                }
                st.calls = NCALL.with(|c| c.get()) - n0;
                let mut all = stats.lock().unwrap();
                let d = &mut all[ci];
                d.evals += st.evals; d.judged += st.judged; d.calls += st.calls; d.over10 += st.over10;
                for (k, v) in st.skips { *d.skips.entry(k).or_insert(0) += v; }
                if st.worst > d.worst { d.worst = st.worst; d.worst_at = st.worst_at; }
                for (k, v) in st.cells { let e = d.cells.entry(k).or_insert(v); if v.0 > e.0 { *e = v; } }
                if d.samples.len() < 2 { d.samples.extend(st.samples); }
            }
            let p = MYSLOT.with(|m| m.get());
            if !p.is_null() { unsafe { p.add(3).write_volatile(0); } }
        })).collect();
        // watchdog: CPU seconds spent inside one single call of the code under test
        let done = &done;
        let wd = s.spawn(move || {
            let mut seen = vec![(0u64, 0.0f64); o.threads];
            let mut idle: Vec<(u64, f64, Instant)> = vec![(0, -1.0, Instant::now()); o.threads];
            let limit = if cfg!(debug_assertions) { 60.0 } else { 20.0 };
            loop {
                std::thread::sleep(Duration::from_millis(250));
                if done.load(Relaxed) { return; }
                for t in 0..o.threads {
                    let (seq, state, ci, n, clk, args);
                    unsafe {
                        if SLOTS.is_null() { continue; }
                        let p = SLOTS.add(t * SLOT / 8);
                        seq = p.read_volatile(); state = p.add(1).read_volatile(); ci = p.add(2).read_volatile() as usize; n = p.add(3).read_volatile() as usize;
                        clk = p.add(4 + NA).read_volatile() as u32 as i32;
                        args = (0..n.min(NA)).map(|i| f64::from_bits(p.add(4 + i).read_volatile())).collect::<Vec<_>>();
                    }
                    if clk == 0 { continue; }
                    // blocked (deadlock): inside a case, yet no CPU time used and no call begun for minutes
                    let cpu = cpu_of(clk);
                    if seq != idle[t].0 || cpu - idle[t].1 > 0.02 || state > 1 { idle[t] = (seq, cpu, Instant::now()); }
                    if idle[t].2.elapsed().as_secs_f64() > 240.0 && ci < clauses.len() && n > 0 {
                        on_hang(Fail { clause: clauses[ci].name, args: args.clone(), msg: "blocked: no CPU time used for 240 s".into() });
                    }
                    if state == 0 || seq != seen[t].0 { seen[t] = (seq, cpu_of(clk)); continue; }
                    if cpu_of(clk) - seen[t].1 > limit && ci < clauses.len() {
                        on_hang(Fail { clause: clauses[ci].name, args, msg: format!("the call did not return within {limit} s of CPU time") });
                    }
                }
            }
        });
        let mut bad = None;
        for h in hs { if let Err(e) = h.join() { bad = Some(e); } }
        done.store(true, Relaxed);
        wd.join().unwrap();
        if let Some(e) = bad { std::panic::resume_unwind(e); }
    });
    let stats = stats.into_inner().unwrap();
    let mut parts = vec![];
    let (mut ev, mut ju, mut di) = (0, 0, 0);
    for (ci, (c, s)) in clauses.iter().zip(&stats).enumerate() {
        ev += s.evals; ju += s.judged; di += distinct[ci].load(Relaxed);
        let sk = s.skips.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ");
        let sm = s.samples.iter().map(|(a, r)| js(&format!("{}({}) -> error/tolerance {:.3}", c.name, show(&a[..c.n]), r))).collect::<Vec<_>>().join(", ");
        parts.push(format!("{{\"clause\": {}, \"what\": {}, \"generated\": {}, \"judged\": {}, \"calls_of_code_under_test\": {}, \"distinct_inputs\": {}, \"distinct_cells\": {}, \"skipped\": {{{sk}}}, \"worst_error_over_tolerance\": {}, \"worst_at\": {}, \"samples\": [{sm}]}}",
            js(c.name), js(c.what), s.evals, s.judged, s.calls, distinct[ci].load(Relaxed), s.cells.len(), jf(s.worst), js(&show(&s.worst_at[..c.n]))));
        if std::env::var("MON_VERBOSE").is_ok() {
            eprintln!("{} {:<22} gen {:>9} judged {:>9} cells {:>7} worst {:.4} at ({})", o.profile, c.name, s.evals, s.judged, s.cells.len(), s.worst, show(&s.worst_at[..c.n]));
            let mut v: Vec<_> = s.cells.values().collect(); v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            if std::env::var("MON_VERBOSE").unwrap() == "2" { for x in v.iter().take(6) { eprintln!("      {:.4} at ({})", x.0, show(&x.1[..c.n])); } }
            if !s.skips.is_empty() { eprintln!("      skipped {:?}", s.skips); }
        }
    }
    Report { json: format!("[{}]", parts.join(",\n    ")), evals: ev, judged: ju, distinct: di, fails: fails.into_inner().unwrap() }
}
