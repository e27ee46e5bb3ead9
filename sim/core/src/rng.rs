//! Deterministic pseudo-random numbers (splitmix64).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash(parts: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for p in parts { h = mix(h ^ mix(*p)); }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize { if n <= 1 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
