//! The tape: the one source of every decision of a run. A fresh tape draws from a seeded
//! generator and records; a replayed tape repeats the recorded choices and answers 0 (the benign
//! choice) once they are used up.
use crate::rng::Rng;

pub struct Tape {
    given: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    pub log: Vec<u32>,
    /// every choice is written here at once, for runs that end the process
    pub spill: Option<std::fs::File>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape { Tape { given: vec![], pos: 0, rng: Some(Rng::new(seed)), log: vec![], spill: None } }
    pub fn replay(given: Vec<u32>) -> Tape { Tape { given, pos: 0, rng: None, log: vec![], spill: None } }
    /// a number below n; 0 is the benign choice
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        let v = if self.pos < self.given.len() { self.given[self.pos] as usize % n } else { match &mut self.rng { Some(r) => r.below(n), None => 0 } };
        self.pos += 1;
        self.log.push(v as u32);
        if let Some(f) = &mut self.spill { use std::io::Write; let _ = f.write_all(&(v as u32).to_le_bytes()); }
        v
    }
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) >= 100usize.saturating_sub(p) }
    pub fn seed(&mut self) -> u64 { self.below(1 << 31) as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let n = self.below(v.len()); &v[n] }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
}
