//! One run of a check: statistics, trace, verdict; generation of cases, records and damage.
use crate::exec::*;
use crate::model::{selectors, Model};
use crate::rng::{hash, mix, Rng};
use crate::rt::{Fault, Out, Plan, Val};
use crate::schema::*;
use crate::tape::Tape;
use std::collections::{BTreeMap, HashSet};

/// class of violation (kept by minimisation) and description
#[derive(Clone, Debug, PartialEq)]
pub struct Bad { pub class: String, pub msg: String }
pub type Verdict = Result<(), Bad>;
pub fn bad<T>(class: &str, msg: String) -> Result<T, Bad> { Err(Bad { class: class.into(), msg }) }

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub parses: u64,
    pub ticks: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    /// fingerprint of everything observed in this run
    pub digest: u64,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) { match self.counts.get_mut(k) { Some(x) => *x += n, None => { self.counts.insert(k.into(), n); } } }
    pub fn fault(&mut self, k: &str) { self.count(&format!("fault:{}", k)) }
    pub fn probe(&mut self, k: &str) { self.count(&format!("probe:{}", k)) }
    pub fn state(&mut self, parts: &[u64]) { let h = hash(parts); self.states.insert(h); }
    pub fn say(&mut self, f: impl FnOnce() -> String) { if self.tracing { let s = f(); if self.trace.len() < 400 { self.trace.push(s); } } }
    pub fn see(&mut self, x: u64) { self.digest = mix(self.digest ^ mix(x)); }
    pub fn see_obs(&mut self, o: &Obs) {
        self.parses += 1;
        let mut h = out_hash(&o.out);
        for e in &o.events { h = mix(h ^ (e.k as u64) << 40 ^ (e.id as u64) << 20 ^ (e.pos as u64).wrapping_mul(31) ^ (e.v as u64).wrapping_mul(131)); }
        self.see(h ^ o.calls as u64);
    }
}

pub fn out_hash(o: &Out) -> u64 {
    match o {
        Out::Ok { val, off, len } => mix(val_hash(val, 1) ^ (*off as u64) << 32 ^ *len as u64),
        Out::Panic(m) => str_hash(m),
        o => str_hash(&format!("{:?}", o)),
    }
}
fn val_hash(v: &Val, h: u64) -> u64 {
    let bytes = |k: u64, b: &[u8]| { let mut x = mix(h ^ k ^ (b.len() as u64) << 8); for c in b { x = (x ^ *c as u64).wrapping_mul(0x100000001b3); } mix(x) };
    let list = |k: u64, l: &[Val]| { let mut x = mix(h ^ k ^ (l.len() as u64) << 8); for e in l { x = val_hash(e, x); } x };
    match v {
        Val::I(x) => mix(h ^ 1 ^ mix(*x as u64) ^ (*x >> 64) as u64),
        Val::U(x) => mix(h ^ 2 ^ mix(*x as u64) ^ (*x >> 64) as u64),
        Val::F(x) => mix(h ^ 3 ^ mix(*x)),
        Val::S(s) => bytes(4, s.as_bytes()),
        Val::B(o, d) => bytes(5, d) ^ mix(*o as u64),
        Val::O(None) => mix(h ^ 6),
        Val::O(Some(x)) => val_hash(x, mix(h ^ 7)),
        Val::L(l) => list(8, l),
        Val::R(l) => list(9, l),
        Val::V(k, l) => list(10 ^ (*k as u64) << 40, l),
        Val::T(a, b) => mix(h ^ 11 ^ (*a as u64) << 8 ^ (*b as u64) << 32),
        Val::M(a, b) => mix(h ^ 12 ^ (*a as u64) << 8 ^ (*b as u64) << 32),
        Val::Unit => mix(h ^ 13),
    }
}
pub fn str_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}

pub struct Run<'a> { pub w: &'a World, pub t: &'a mut Tape, pub st: &'a mut Stats,
    /// records with more elements than 16 bits can count
    pub huge: bool }

pub fn hex(d: &[u8]) -> String {
    let mut s = String::new();
    for b in d.iter().take(96) { s.push_str(&format!("{:02x}", b)); }
    if d.len() > 96 { s.push_str(&format!("..({} bytes)", d.len())); }
    s
}

impl<'a> Run<'a> {
    /// description for the trace, if there is one
    pub fn lazy(&self, c: &Case) -> String { if self.st.tracing { self.describe(c) } else { String::new() } }
    pub fn describe(&self, c: &Case) -> String {
        let mut al = crate::emit::Aliases::default();
        let d = crate::emit::decl(&self.w.cat, c.id, &mut al);
        let d = d.split("\nimpl").next().unwrap_or("").to_string();
        format!("T{} [{}] via {:?}, selector {}, args {:?}, session {:?}\n{}", c.id, self.w.cat.v[c.id].tag, c.fl, c.sel, c.args, c.env, d)
    }
    /// a parser to call, with arguments
    pub fn case(&mut self, pool: &[Id]) -> Case {
        let id = *self.t.pick(pool);
        self.case_for(id)
    }
    pub fn case_for(&mut self, id: Id) -> Case {
        let s = &self.w.cat.v[id];
        let fl = *self.t.pick(&[Fl::No, Fl::Be, Fl::Le]);
        let mut sel = 0;
        if let Body::Enum { sel: q, .. } = &s.body {
            let h = selectors(s);
            sel = if self.t.pct(15) { let r = self.t.seed(); (mix(r) >> 20) as i64 % 300 } else { *self.t.pick(&h) };
            if !q.signed() && sel < 0 { sel = -sel; }
            if *q == P::U8 { sel &= 255; }
            if *q == P::U16 { sel &= 0xffff; }
        }
        let args = s.args.iter().map(|(_, t)| match t { ArgTy::P(_) => self.t.below(8) as i64, ArgTy::Endian => self.t.below(2) as i64 }).collect();
        let env = self.session();
        Case { id, fl, sel, args, env }
    }
    /// session values
    pub fn session(&mut self) -> Vec<i64> {
        if self.t.pct(85) { let mut r = Rng::new(self.t.seed()); (0..8).map(|_| r.range(0, 6)).collect() } else { vec![0; 8] }
    }
    pub fn size(&mut self, c: &Case) -> (u8, usize) {
        let large = self.w.cat.v[c.id].tag.contains("large");
        let k = self.t.below(1000);
        if k >= 990 && self.huge && self.w.cat.v[c.id].tag.contains("huge") { return (3, 400_000); }
        if k >= match (large, self.huge) { (true, true) => 750, (true, false) => 950, (false, true) => 988, _ => 996 } { (2, 90_000) } else if k >= 400 { (1, 2000) } else { (0, 600) }
    }
    /// bytes of one record, usually valid
    pub fn record(&mut self, c: &Case, bad: usize) -> (Vec<u8>, bool) {
        let (size, cap) = self.size(c);
        let seed = self.t.seed();
        Model::invent(&self.w.cat, c.id, c.fl, c.sel, &c.args, &c.plan(), seed, size, bad, cap)
    }
    pub fn exec(&mut self, c: &Case, data: &[u8], plan: &Plan) -> Obs { let o = exec(self.w, c, data, plan); self.st.see_obs(&o); self.note(&o); o }
    pub fn note(&mut self, o: &Obs) {
        for (k, n) in o.fired_kinds.iter().enumerate() {
            if *n > 0 { self.st.add(["fault:nested-error", "fault:nested-failure", "fault:nested-incomplete", "fault:nested-incomplete-unknown", "fault:nested-panic"][k], *n as u64); }
        }
    }
    /// damage done by the channel or the medium
    pub fn damage(&mut self, d: &mut Vec<u8>) {
        let n = 1 + self.t.below(3);
        for _ in 0..n {
            let kind = self.t.below(9);
            let at = self.t.below(d.len().max(1));
            match kind {
                0 => { let k = self.t.below(8); if let Some(b) = d.get_mut(at) { *b ^= 1 << k; self.st.fault("bit-flip"); } }
                1 => { let v = *self.t.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xdd, 0xee, 2, 3, 4, 5, 6, 7, 8]); if let Some(b) = d.get_mut(at) { *b = v; self.st.fault("byte-set"); } }
                2 => { d.truncate(at); self.st.fault("truncated"); }
                3 => { let v = self.t.below(256) as u8; if !d.is_empty() { d.insert(at, v); self.st.fault("byte-inserted"); } }
                4 => { if at < d.len() { d.remove(at); self.st.fault("byte-lost"); } }
                5 => { let m = (1 + self.t.below(8)).min(d.len() - at.min(d.len())); let x: Vec<u8> = d[at.min(d.len())..at.min(d.len()) + m].to_vec(); let p = at.min(d.len()); d.splice(p..p, x); self.st.fault("duplicated-bytes"); }
                6 | 7 => {
                    let w = *self.t.pick(&[1usize, 2, 4, 8, 16]);
                    let v: i128 = match self.t.below(16) { 0 => 0, 1 => -1, 2 => 1, 3 => i128::MAX >> (128 - 8 * w), 4 => (i128::MIN >> (128 - 8 * w)) as i128, 5 => 255, 6 => 256, 7 => 65535, 8 => 65536, 9 => 1 << 31, 10 => d.len() as i128, 11 => d.len() as i128 + 1, 12 => 256 + self.t.below(6) as i128, 13 => 65536 + self.t.below(6) as i128, 14 => (1 << 32) + self.t.below(6) as i128, _ => (1 << 31) - 1 - self.t.below(3) as i128 };
                    let mut b = v.to_be_bytes()[16 - w..].to_vec();
                    if self.t.pct(50) { b.reverse(); }
                    for (k, x) in b.into_iter().enumerate() { if let Some(y) = d.get_mut(at + k) { *y = x; } }
                    self.st.fault("extreme-number");
                }
                _ => { let m = 1 + self.t.below(6); let s = self.t.seed(); let mut r = Rng::new(s); for _ in 0..m { d.push(r.next() as u8); } self.st.fault("trailing-garbage"); }
            }
        }
    }
    pub fn fault(&mut self) -> Fault { *self.t.pick(&[Fault::Error, Fault::Failure, Fault::Inc(3), Fault::IncUnknown, Fault::Panic]) }
}

/// ids of a pool
pub fn pool(w: &World, f: impl Fn(&Schema, Id) -> bool) -> Vec<Id> {
    (0..w.cat.v.len()).filter(|i| w.cat.v[*i].level <= w.level && f(&w.cat.v[*i], *i)).collect()
}
