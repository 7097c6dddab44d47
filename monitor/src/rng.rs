//! xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || { s = s.wrapping_add(0x9e3779b97f4a7c15); let mut z = s; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) };
        Rng([n(), n(), n(), n()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 * (1.0 / 9007199254740992.0) }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 { let t = self.f(); (a * (1.0 - t) + b * t).clamp(a, b) }
    pub fn logu(&mut self, a: f64, b: f64) -> f64 { let (la, lb) = (a.ln(), b.ln()); (la + (lb - la) * self.f()).exp().clamp(a, b) }
    pub fn sign(&mut self) -> f64 { if self.u64() & 1 == 0 { 1.0 } else { -1.0 } }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
}
/// x moved by k units in the last place (saturating at the infinities, crossing zero)
pub fn ulps(x: f64, k: i64) -> f64 {
    if !x.is_finite() { return x; }
    let b = x.to_bits();
    let o: i64 = if b >> 63 == 0 { b as i64 } else { -((b & !(1 << 63)) as i64) };
    let lim = f64::MAX.to_bits() as i64;
    let o = o.saturating_add(k).clamp(-lim, lim);
    if o >= 0 { f64::from_bits(o as u64) } else { f64::from_bits((-o) as u64 | 1 << 63) }
}
