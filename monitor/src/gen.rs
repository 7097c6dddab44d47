//! Input generation: distributions, boundary values, and a dictionary of the
//! numeric literals that occur in the sources under test (thresholds live there).
use crate::rng::{ulps, Rng};

pub const NA: usize = 4;
pub type A = [f64; NA];

pub struct Dict { pub lits: Vec<f64>, pub tables: Vec<f64> }

fn scan_line(l: &str, out: &mut Vec<f64>) {
    let b = l.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        let prev = if i > 0 { b[i - 1] as char } else { ' ' };
        if c.is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == '_') {
            let st = i;
            if c == '0' && i + 1 < b.len() && b[i + 1] == b'x' {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
                let s: String = l[st + 2..i].chars().filter(|c| c.is_ascii_hexdigit()).collect();
                if let Ok(v) = u64::from_str_radix(&s, 16) { let f = f64::from_bits(v); if f.is_finite() { out.push(f) } out.push(v as f64); }
                continue;
            }
            while i < b.len() {
                let d = b[i] as char;
                let ok = d.is_ascii_digit() || d == '_'
                    || (d == '.' && !(i + 1 < b.len() && b[i + 1] == b'.'))
                    || ((d == 'e' || d == 'E') && i + 1 < b.len() && (b[i + 1].is_ascii_digit() || b[i + 1] == b'-' || b[i + 1] == b'+' || b[i+1] == b'_'))
                    || ((d == '-' || d == '+') && (b[i - 1] == b'e' || b[i - 1] == b'E'));
                if !ok { break; }
                i += 1;
            }
            let s: String = l[st..i].trim_end_matches('.').chars().filter(|c| *c != '_').collect();
            if let Ok(v) = s.parse::<f64>() { if v.is_finite() && v != 0.0 { out.push(v) } }
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
        } else { i += 1; }
    }
}

impl Dict {
    pub fn load() -> Dict {
        let (mut lits, mut tables) = (vec![], vec![]);
        let mut files: Vec<_> = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            if let Ok(rd) = std::fs::read_dir(&d) {
                for e in rd.flatten() { let p = e.path(); if p.is_dir() { dirs.push(p) } else if p.extension().map_or(false, |x| x == "rs") { files.push(p) } }
            }
        }
        files.sort();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                for l in s.lines() {
                    let t = l.trim_start();
                    if t.starts_with("//") { continue; }
                    let code = t.split("//").next().unwrap_or("");
                    let tab = !code.chars().any(|c| c.is_ascii_alphabetic() && c != 'e' && c != 'E');
                    scan_line(code, if tab { &mut tables } else { &mut lits });
                }
            }
        }
        for v in [&mut lits, &mut tables] { v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v.dedup(); }
        if lits.is_empty() { lits = vec![1.0, 2.0, 8.0, 15.0, 100.0]; }
        if tables.is_empty() { tables = lits.clone(); }
        Dict { lits, tables }
    }
}

pub struct Gen<'a> { pub r: Rng, pub d: &'a Dict, pub prev: A }

impl<'a> Gen<'a> {
    /// a number near something that occurs as a literal in the sources
    pub fn lit(&mut self) -> f64 {
        let l = if self.r.chance(0.9) { self.r.pick(&self.d.lits) } else { self.r.pick(&self.d.tables) };
        let v = match self.r.below(16) {
            0..=6 => l, 7 => -l, 8 => 1.0 / l, 9 => l.abs().sqrt(), 10 => l * l, 11 => 2.0 * l, 12 => 0.5 * l,
            13 => 1.0 - l, 14 => 1.0 + l, _ => { let m = self.r.pick(&self.d.lits); if self.r.chance(0.5) { l + m } else { l * m } }
        };
        self.near(v)
    }
    pub fn near(&mut self, v: f64) -> f64 {
        match self.r.below(10) {
            0..=2 => v,
            3..=5 => { let k = self.r.below(5) as i64 - 2; ulps(v, k) }
            6 => { let k = self.r.below(4001) as i64 - 2000; ulps(v, k) }
            7 => { let e = self.r.logu(1e-14, 1e-2); v * (1.0 + self.r.sign() * e) }
            8 => { let e = self.r.logu(1e-9, 0.5); v + self.r.sign() * e }
            _ => v * (1.0 + self.r.sign() * self.r.logu(1e-3, 0.2)),
        }
    }
    /// a value of [lo, hi], mostly from the core [clo, chi]
    pub fn real(&mut self, lo: f64, hi: f64, clo: f64, chi: f64, prev: f64) -> f64 {
        for _ in 0..100 {
            let v = match self.r.below(100) {
                0..=29 => self.r.uni(clo, chi),
                30..=36 => self.r.uni(lo.max(-1e300), hi.min(1e300)),
                37..=54 => {
                    let m = lo.abs().max(hi.abs()).min(f64::MAX);
                    let mn = if lo > 0.0 { lo } else { 1e-300_f64.min(m / 2.0) };
                    let v = self.r.logu(mn.min(m), m);
                    if lo < 0.0 && (hi <= 0.0 || self.r.chance(0.5)) { -v } else { v }
                }
                55..=60 => { let m = (clo.abs().max(chi.abs())).max(1e-3); let v = self.r.logu(m * 1e-4, m); if clo < 0.0 && self.r.chance(0.5) { -v } else { v } }
                61..=68 => { let q = self.r.pick(&[1.0, 2.0, 4.0, 1.0, 10.0]); let v = (self.r.uni(clo, chi) * q).round() / q; if self.r.chance(0.7) { v } else { self.near(v) } }
                69..=84 => self.lit(),
                85..=89 => { let e = self.r.below(2098) as i32 - 1074; let e = if self.r.chance(0.7) { e % 24 } else { e }; let v = (e as f64).exp2() * self.r.sign(); self.near(v) }
                90..=92 => { let e = self.r.pick(&[lo, hi, clo, chi]); self.near(e) }
                93..=94 => { let v = self.r.uni(clo, chi) as f32 as f64; v }
                _ => self.near(prev),
            };
            if v >= lo && v <= hi { return v; }
        }
        self.r.uni(clo, chi)
    }
    /// non-negative integer up to hi, mostly up to chi
    pub fn int(&mut self, hi: u64, chi: u64) -> f64 {
        let v = match self.r.below(10) {
            0..=3 => self.r.below(chi + 1) as f64,
            4..=5 => self.r.logu(1.0, hi as f64 + 0.5).floor(),
            6 => self.r.below(8.min(chi) + 1) as f64,
            7 => { let e = self.r.below(20); ((1u64 << e) as f64 + self.r.below(3) as f64 - 1.0).max(0.0) }
            8 => { let l = self.lit().abs().round(); if l.is_finite() { l } else { 3.0 } }
            _ => self.r.below(chi + 1) as f64,
        };
        if v <= hi as f64 { v } else { self.r.below(chi + 1) as f64 }
    }
    /// one of the boundary values of f64
    pub fn special(&mut self) -> f64 {
        let v = self.r.pick(&[0.0, f64::MIN_POSITIVE, 5e-324, 1.0, f64::MAX, f64::INFINITY, f64::NAN, f64::EPSILON, 2.2250738585072009e-308, 1e-300, 1e300, 0.5, 2.0, 9007199254740992.0, 4294967296.0, 18446744073709551616.0, 2147483648.0]);
        let v = if self.r.chance(0.3) { let k = self.r.below(3) as i64 - 1; ulps(v, k) } else { v };
        if self.r.chance(0.5) { -v } else { v }
    }
    /// any bit pattern
    pub fn any(&mut self) -> f64 {
        match self.r.below(6) {
            0 => f64::from_bits(self.r.u64()),
            1 => self.special(),
            2 => self.lit(),
            3 => self.r.logu(1e-20, 1e20) * self.r.sign(),
            4 => self.r.uni(-200.0, 200.0),
            _ => self.r.uni(-10.0, 10.0),
        }
    }
    pub fn mutate(&mut self, a: &A, n: usize) -> A {
        let mut b = *a;
        let k = self.r.below(n as u64) as usize;
        b[k] = match self.r.below(8) {
            0 => { let s = self.r.below(9) as i64 - 4; ulps(b[k], s) }
            1 => { let s = self.r.below(1 << 20) as i64 - (1 << 19); ulps(b[k], s) }
            2 => b[k] * (1.0 + self.r.sign() * self.r.logu(1e-15, 1e-6)),
            3 | 4 => b[k] * (1.0 + self.r.sign() * self.r.logu(1e-6, 0.1)),
            5 => b[k] + self.r.sign() * self.r.logu(1e-6, 1.0),
            6 => b[k] + self.r.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, -2.0]),
            _ => { if n > 1 && self.r.chance(0.3) { let j = self.r.below(n as u64) as usize; b[j] } else { b[k].round() } }
        };
        b
    }
}
