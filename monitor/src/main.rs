//! monitor run <ID>            orchestrates one check (see run.sh), writes evidence and replays
//! monitor child <ID> <slots> <part> <budget>   executes the workload in this build profile
//! monitor replay <file>       re-executes the recorded inputs
mod alloc;
mod common;
mod engine;
mod gen;
mod oracle;
mod props;
mod rng;

use engine::*;
use std::fmt::Write as _;
use std::process::{exit, Command};
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const PROFILE: &str = if cfg!(debug_assertions) { "dev" } else if cfg!(target_feature = "fma") { "fma" } else { "release" };

fn env_u64(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|v| v.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(d) }

fn quiet_panics() { if std::env::var("MON_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); } }

fn fail_line(f: &Fail) -> String {
    format!("{}\t{}\t{}\t{}", PROFILE, f.clause, f.args.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(","), f.msg.replace(['\n', '\t'], " "))
}

fn child(a: &[String]) -> i32 {
    let (id, slots, part, budget) = (&a[0], &a[1], a[2].clone(), a[3].parse::<f64>().unwrap());
    quiet_panics();
    map_slots(slots);
    limit_memory(20 << 30);
    let cls = props::clauses(id).expect("property");
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let o = Opts { seed: env_u64("VERIF_SEED", 1), budget, threads, profile: PROFILE, stop_on_fail: std::env::var("MON_ALL").is_err() };
    let t0 = Instant::now();
    let pp = part.clone();
    let hang = move |f: Fail| { std::fs::write(format!("{pp}.fail"), fail_line(&f) + "\n").unwrap(); exit(3) };
    let r = run(id, &cls, &o, &hang);
    let mut s = String::new();
    for f in &r.fails { writeln!(s, "{}", fail_line(f)).unwrap(); }
    std::fs::write(format!("{part}.fail"), s).unwrap();
    std::fs::write(format!("{part}.sum"), format!("{} {} {}", r.evals, r.judged, r.distinct)).unwrap();
    std::fs::write(format!("{part}.json"), format!("{{\"profile\": \"{PROFILE}\", \"threads\": {threads}, \"wall_s\": {:.2}, \"clauses\": {}}}", t0.elapsed().as_secs_f64(), r.json)).unwrap();
    if r.fails.is_empty() { 0 } else { 3 }
}

fn orchestrate(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = &a[0];
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => "thorough", _ => "quick" };
    let seed = env_u64("VERIF_SEED", 1) as i64;
    let base: f64 = std::env::var("MON_BUDGET").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == "quick" { 24.0 } else { 480.0 });
    let dev = std::env::var("MON_DEV").ok();
    let (nself, wself) = match oracle::selftest() { Ok(v) => v, Err(e) => { println!("ERROR {e}"); return 2; } };
    let tmp = format!("{}/run-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let cls = props::clauses(id).expect("property");
    let mut fails: Vec<(String, String, Vec<f64>, String)> = vec![];
    let (mut ev, mut ju, mut di) = (0u64, 0u64, 0u64);
    let mut parts = vec![];
    let me = std::env::current_exe().unwrap();
    let mut runs = vec![("release", me, base)];
    // S03 compares the two builds itself
    if let Some(d) = dev.filter(|_| id != "S03") { runs.push(("dev", d.into(), base * 0.35)); }
    if let Ok(d) = std::env::var("MON_FMA") { if matches!(id.as_str(), "G01" | "G02" | "G03" | "B01") { runs.push(("fma", d.into(), base * 0.2)); } }
    for (prof, exe, budget) in runs {
        let slots = format!("{tmp}/slots-{prof}");
        let part = format!("{tmp}/part-{prof}");
        let st = Command::new(&exe).args(["child", id, &slots, &part, &budget.to_string()]).env("RUST_BACKTRACE", "0").status();
        let st = match st { Ok(s) => s, Err(e) => { println!("ERROR cannot run {exe:?}: {e}"); return 2; } };
        use std::os::unix::process::ExitStatusExt;
        if let Some(sig) = st.signal() {
            if sig == 9 || sig == 15 { println!("ERROR monitor process killed by signal {sig}"); return 2; }
            let mut n = 0;
            for (infl, ci, args) in read_slots(&slots) { if infl && ci < cls.len() { n += 1; fails.push((prof.into(), cls[ci].name.into(), args, format!("the process died of signal {sig} while this call was in flight"))); } }
            if n == 0 { println!("ERROR monitor process died of signal {sig} outside the code under test"); return 2; }
            continue;
        }
        match st.code() {
            Some(0) | Some(3) => {}
            c => { println!("ERROR monitor process ended with {c:?}"); return 2; }
        }
        if let Ok(s) = std::fs::read_to_string(format!("{part}.fail")) {
            for l in s.lines() {
                let f: Vec<&str> = l.splitn(4, '\t').collect();
                fails.push((f[0].into(), f[1].into(), f[2].split(',').filter(|x| !x.is_empty()).map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect(), f[3].into()));
            }
        }
        if let Ok(s) = std::fs::read_to_string(format!("{part}.sum")) { let v: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect(); ev += v[0]; ju += v[1]; di += v[2]; }
        if let Ok(s) = std::fs::read_to_string(format!("{part}.json")) { parts.push(s); }
        if !fails.is_empty() { break; }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // known findings: "open" lines suppress exactly one clause with exactly these argument bits
    let open = open_findings(id);
    for (c, b, w) in &open { println!("KNOWN-FINDING: property={id} {c}({b}) {w}"); }
    fails.retain(|f| { let b = hexargs(&f.2); !open.iter().any(|o| o.0 == f.1 && o.1 == b) });
    let samples: Vec<String> = parts.iter().flat_map(|p| { let mut v = vec![]; let mut s = p.as_str(); while let Some(i) = s.find("\"samples\": [") { let t = &s[i + 12..]; let e = t.find(']').unwrap_or(0); for x in t[..e].split("\", \"") { let x = x.trim().trim_matches('"'); if !x.is_empty() { v.push(format!("\"{x}\"")) } } s = &t[e..]; } v }).collect();
    let js_fails: Vec<String> = fails.iter().map(|f| js(&format!("[{}] {}({}): {}", f.0, f.1, show(&f.2), f.3))).collect();
    let rule = "inputs are drawn from uniform, log-uniform, integer, power-of-two and boundary distributions, from the numeric literals of the sources under test and their neighbours, and by mutating the inputs with the largest error seen so far; an input is non-trivial when it lies in the domain of the property, so that the real code was executed on it and its result was judged by the oracle (skipped inputs are not counted); distinct = distinct (clause, argument bits), counted in a 2^28-bit hash set per build profile, which is a lower bound";
    let ej = format!("{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {ju},\n  \"generated_including_skipped\": {ev},\n  \"distinct_nontrivial\": {di},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"oracle_selftest\": {{\"golden_values\": {nself}, \"worst_error_over_tolerance\": {}}},\n  \"source_literals\": {},\n  \"runs\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"glibc binary128 elementary functions and mpmath (golden values)\", \"the x86-64 libm used by the Rust standard library\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(rule), samples.join(", "), jf(wself), gen::Dict::load().lits.len(), parts.join(",\n   "), t0.elapsed().as_secs_f64(), fails.len());
    std::fs::create_dir_all(format!("{verif}/evidence")).unwrap();
    std::fs::write(format!("{verif}/evidence/{id}.json"), ej).unwrap();
    if fails.is_empty() {
        println!("OK property={id} tier={tier} seed={seed} judged={ju} distinct={di} wall={:.1}s", t0.elapsed().as_secs_f64());
        return 0;
    }
    let dir = format!("{verif}/replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{id}-{seed}.txt");
    let mut s = format!("property {id}\nseed {seed}\ntier {tier}\n");
    for f in &fails {
        writeln!(s, "# [{}] {}({}): {}", f.0, f.1, show(&f.2), f.3).unwrap();
        writeln!(s, "case {} {}", f.1, f.2.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(" ")).unwrap();
    }
    std::fs::write(&path, s).unwrap();
    for f in js_fails.iter().take(5) { println!("  {f}"); }
    println!("VIOLATION property={id} replay={path}");
    1
}

fn replay(path: &str) -> i32 {
    quiet_panics();
    let s = std::fs::read_to_string(path).expect("replay file");
    let mut id = String::new();
    let mut rc = 0;
    for l in s.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w[0] == "property" { id = w[1].into(); }
        if w[0] == "case" {
            let cls = props::clauses(&id).expect("property");
            let c = cls.iter().find(|c| c.name == w[1]).expect("clause");
            let mut a = [0.0; gen::NA];
            for (i, x) in w[2..].iter().enumerate() { a[i] = f64::from_bits(u64::from_str_radix(x, 16).unwrap()); }
            match (c.judge)(&a) {
                V::Fail(m) => { rc = 1; println!("FAIL [{PROFILE}] {}({}): {m}", c.name, show(&a[..c.n])) }
                V::Pass(r) => println!("pass [{PROFILE}] {}({}): error/tolerance {r:.4}", c.name, show(&a[..c.n])),
                V::Skip(w) => println!("skip [{PROFILE}] {}({}): {w}", c.name, show(&a[..c.n])),
            }
        }
    }
    rc
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rc = match a.first().map(|s| s.as_str()) {
        Some("run") => orchestrate(&a[1..]),
        Some("child") => child(&a[1..]),
        Some("serve") => { quiet_panics(); props::system::serve(); 0 }
        Some("replay") => replay(&a[1]),
        _ => { eprintln!("usage: monitor run|child|replay"); 2 }
    };
    exit(rc)
}
