//! C06: an append-only log on a disk that tears, loses and damages writes; recovery by reading an
//! unbounded sequence, then appending again where the valid part ends.
use super::mutate::compare;
use super::*;
use crate::exec::*;
use crate::model::Model;
use crate::rng::Rng;
use crate::rt::{Out, Val};
use crate::schema::*;

pub const C06: Check = Check {
    id: "C06",
    pool: |w| vec![pool(w, |s, _| sequence(s).is_some()), pool(w, |s, _| s.tag.starts_with("log") || s.tag == "endian_open" || s.tag == "hooks" || s.tag == "fault" || s.tag == "direct")],
    run,
    quick: 1_500_000,
    rule: "one evaluation is one history of a log: append batches, crash with the last write torn at some byte (lost, short, zeroed or garbage tail, or a damaged sector), recover by parsing, truncate at the remainder and append again; or one torn file of a declaration with optional, counted or fixed sequences; non-trivial when a tear or damage took place; distinct by (declaration, whole elements, torn bytes, outcome)",
    real: REAL,
    stub: "disk, crashing writer; the reference interpreter is the oracle",
    no_alloc: true,
    probes: &["torn-element", "resumed", "cut-at-element-boundary", "damaged-element", "recovered-all"],
};

/// a declaration that is nothing but one unbounded sequence
pub fn sequence(s: &Schema) -> Option<Ty> {
    if !s.top.is_empty() || s.complete || s.debug || !s.args.is_empty() { return None; }
    match &s.body {
        Body::Struct(_, f) if f.len() == 1 && (f[0].attrs.is_empty() || matches!(&f[0].attrs[..], [At::Parse(UP::OfTy(t, _))] if **t == f[0].ty)) => match &f[0].ty { Ty::Vec(x) if !matches!(**x, Ty::Phantom | Ty::Vec(_)) => Some((**x).clone()), _ => None },
        _ => None,
    }
}
fn list(v: &Val) -> Option<&Vec<Val>> { if let Val::R(f) = v { if let Some(Val::L(l)) = f.first() { return Some(l); } } None }

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    if r.t.pct(if r.w.level == 0 { 100 } else { 35 }) {
        // one torn file
        let c = r.case(&pools[1]);
        let b = *r.t.pick(&[0usize, 10, 30]);
        let (mut d, _) = r.record(&c, b);
        let n = r.t.below(d.len() + 1);
        match r.t.below(4) {
            0 => { d.truncate(n); r.st.fault("short-write"); }
            1 => { for b in &mut d[n..] { *b = 0; } r.st.fault("zeroed-tail"); }
            2 => { let s = r.t.seed(); let mut g = Rng::new(s); for b in &mut d[n..] { *b = g.next() as u8; } r.st.fault("garbage-tail"); }
            _ => { if n < d.len() { d[n] ^= 1 << r.t.below(8); r.st.fault("bit-flip"); } }
        }
        let mut p = c.plan();
        // an element that fails of itself or cannot say how much it lacks
        if r.t.pct(30) {
            let calls = model(r.w, &c, &d, &p).calls;
            if calls > 0 { let k = r.t.below(calls as usize) as u32; let f = r.fault(); p.faults.push((k, f)); }
        }
        return compare(r, &c, &d, &p, "torn", false);
    }
    let c = r.case(&pools[0]);
    if sequence(&r.w.cat.v[c.id]).is_none() { r.st.count("no-sequence-in-this-build"); return Ok(()); }
    let s = r.lazy(&c);
    let s_huge = r.w.cat.v[c.id].tag.contains("huge");
    r.st.say(|| format!("log of {}", s));
    let plan = c.plan();
    let mut disk: Vec<u8> = vec![];
    let mut want: Vec<Val> = vec![];
    let rounds = 1 + r.t.below(3);
    let mut sched = 0;
    for round in 0..rounds {
        // append a batch of whole elements
        let seed = r.t.seed();
        let size = if r.t.pct(3) { 2 } else { 1 };
        let size = if size == 2 && s_huge && r.t.pct(5) { 3 } else { size };
        let (batch, ok) = Model::invent(&r.w.cat, c.id, c.fl, c.sel, &c.args, &plan, seed, size, 0, match size { 3 => 400_000, 2 => 20_000, _ => 300 });
        if !ok { return Ok(()); }
        let m = model(r.w, &c, &batch, &plan);
        let whole = match &m.out { Out::Ok { val, off, .. } => (list(val).cloned().unwrap_or_default(), *off as usize), _ => return Ok(()) };
        let batch = &batch[..whole.1];
        let old = disk.len();
        disk.extend_from_slice(batch);
        let before = want.len();
        want.extend(whole.0.iter().map(|x| x.unplaced()));
        // the crash tears this append somewhere
        let keep = old + r.t.below(batch.len() + 1);
        let kind = if round + 1 == rounds && r.t.pct(30) { 9 } else { r.t.below(5) };
        match kind {
            0 | 1 => { disk.truncate(keep); r.st.fault("short-write"); }
            2 => { for b in &mut disk[keep..] { *b = 0; } r.st.fault("zeroed-tail"); }
            3 => { let s = r.t.seed(); let mut g = Rng::new(s); for b in &mut disk[keep..] { *b = g.next() as u8; } r.st.fault("garbage-tail"); }
            4 => { if keep < disk.len() { disk[keep] ^= 1 << r.t.below(8); r.st.fault("bit-flip"); r.st.probe("damaged-element"); } }
            _ => {}
        }
        // recovery
        let o = r.exec(&c, &disk, &plan);
        r.st.ticks += 1;
        let m = model(r.w, &c, &disk, &plan);
        if m.overrun { return Ok(()); }
        r.st.say(|| format!("round {}: {} bytes on disk ({}), recovered {}", round, disk.len(), hex(&disk), o.out.short()));
        let (val, off) = match (&o.out, &m.out) {
            (Out::Ok { val, off, len }, Out::Ok { .. }) if *off + *len == disk.len() as i64 => (val.clone(), *off as usize),
            (a, b) if a.class() == b.class() && agree(a, b) => return Ok(()),
            (a, b) => return bad("recovery", format!("log {} recovered as {}, should be {}; {}", hex(&disk), a.short(), b.short(), r.describe(&c))),
        };
        let got: Vec<Val> = list(&val).cloned().unwrap_or_default();
        // elements that are whole before the tear, counted one by one
        let (mut at, mut exp) = (0usize, vec![]);
        let one = elem(r.w, c.id);
        loop {
            match Model::element(&r.w.cat, &one, c.id, c.fl, &disk, at, &plan) { Some((p, v)) if p > at => { exp.push(v); at = p; } _ => break }
        }
        if got.len() != exp.len() || off != at || got.iter().zip(&exp).any(|(a, b)| a != b) {
            return bad("recovery", format!("log {}: {} whole elements ending at byte {}, recovered {} ending at {}: {:?}; {}", hex(&disk), exp.len(), at, got.len(), off, got, r.describe(&c)));
        }
        if kind <= 1 { // a short write loses a suffix only
            let g: Vec<Val> = got.iter().map(|x| x.unplaced()).collect();
            if g.len() < before || want.len() < g.len() || g[..] != want[..g.len()] {
                return bad("history", format!("after a short write at byte {} of {}, recovered {:?}, appended were {:?}; {}", keep, hex(&disk), g, want, r.describe(&c)));
            }
        }
        if off < disk.len() { r.st.probe("torn-element"); } else if disk.len() < old + batch.len() { r.st.probe("cut-at-element-boundary"); }
        if kind == 9 { r.st.probe("recovered-all"); }
        r.st.state(&[c.id as u64, got.len() as u64, (disk.len() - off) as u64, kind as u64]);
        sched = crate::rng::hash(&[sched, keep as u64, kind as u64]);
        // resume there
        want = got.iter().map(|x| x.unplaced()).collect();
        disk.truncate(off);
        if round + 1 < rounds { r.st.probe("resumed"); }
    }
    r.st.schedules.insert(sched);
    Ok(())
}
fn elem(w: &World, id: Id) -> Ty { sequence(&w.cat.v[id]).unwrap() }
