//! C01: a sender, a lossy segment network with acknowledgements and retransmission, and a reader
//! that parses whenever bytes arrive, crashes, and restarts from its committed offset.
use super::*;
use crate::catalog::open_ended;
use crate::exec::Case;
use crate::rng::hash;
use crate::rt::{Out, Val};
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;

pub const C01: Check = Check {
    id: "C01",
    pool: |w| vec![pool(w, |_, i| !open_ended(&w.cat, i)), pool(w, |s, i| !open_ended(&w.cat, i) && s.tag.contains("pos")), pool(w, |s, i| !open_ended(&w.cat, i) && s.tag.contains("large"))],
    run,
    quick: 400_000,
    rule: "one evaluation is one simulated connection: 1-5 records of up to 3 declared types cut into segments and carried over a network that loses, duplicates, reorders, delays and partitions them, to a reader that stalls and crashes; non-trivial when at least one parse of a partial record took place; distinct by (declaration, cut position, outcome)",
    real: REAL,
    stub: "peer, network, reassembly buffer, reader process (crash loses everything but the committed offset)",
    no_alloc: true,
    probes: &["partial-parse", "crash-mid-record", "retransmission", "several-records-in-buffer", "out-of-order-segment"],
};

struct Rec { case: Case, bytes: Vec<u8>, val: Val }

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev { Seg(usize, usize), Ack(u32, usize), Rto, ReaderUp, KeepAlive, Poll, Crash, SenderCrash, PartOn, PartOff }

/// a self-delimiting record of the case, with the value it stands for
pub fn streamed(r: &mut Run, c: &Case) -> Option<(Vec<u8>, Val)> {
    let (d, ok) = r.record(c, 0);
    if !ok { return None; }
    let m = crate::exec::model(r.w, c, &d, &c.plan());
    if m.overrun { return None; }
    match m.out { Out::Ok { val, off, len: 0 } if off as usize == d.len() && !d.is_empty() && m.reach <= d.len() => Some((d, val)), _ => None }
}

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let nt = 1 + r.t.below(3);
    let mut cases = vec![];
    for _ in 0..nt { let k = r.t.below(10); let p = &pools[if k == 9 { 2 } else if k >= 7 { 1 } else { 0 }]; cases.push(r.case(p)); }
    let nr = 1 + r.t.below(5);
    let mut recs: Vec<Rec> = vec![];
    for _ in 0..nr {
        let c = r.t.pick(&cases).clone();
        if let Some((bytes, val)) = streamed(r, &c) { recs.push(Rec { case: c, bytes, val }); }
    }
    if recs.is_empty() { r.st.count("runs-without-record"); return Ok(()); }
    let total: usize = recs.iter().map(|x| x.bytes.len()).sum();
    let mut starts = vec![0];
    for x in &recs { starts.push(starts.last().unwrap() + x.bytes.len()); }
    let stream: Vec<u8> = recs.iter().flat_map(|x| x.bytes.iter().copied()).collect();
    for x in &recs { let s = r.lazy(&x.case); r.st.say(|| format!("record {} = {:?} for {}", hex(&x.bytes), x.val, s)); }

    // network and faults of this run
    let (loss, dup, jit) = (*r.t.pick(&[0usize, 0, 10, 30]), *r.t.pick(&[0usize, 0, 15]), *r.t.pick(&[0usize, 5, 40]));
    let seg_mode = r.t.below(4);
    let big = total > 3000;
    let readmax = if r.t.pct(25) { 1 + r.t.below(if big { 5000 } else { 12 }) } else { usize::MAX };
    let mut q: BinaryHeap<Reverse<(u64, u64, Ev)>> = BinaryHeap::new();
    let mut n = 0u64;
    let mut now = 0u64;
    let fault_end = 400u64;
    macro_rules! at { ($d:expr, $e:expr) => {{ n += 1; q.push(Reverse((now + $d as u64, n, $e))); }} }
    for _ in 0..r.t.below(4) { let d = r.t.below(400); at!(d, Ev::Crash); }
    if r.t.pct(15) { let d = r.t.below(300); at!(d, Ev::SenderCrash); }
    if r.t.pct(20) { let a = r.t.below(200); at!(a, Ev::PartOn); at!(a + 20 + r.t.below(150), Ev::PartOff); }
    at!(0, Ev::Rto);
    at!(40, Ev::KeepAlive);

    // sender
    let mut acked = 0usize;
    let mut sent = 0usize;
    let mut known = 0u32;
    // reader
    let mut up = true;
    let mut epoch = 0u32;
    let mut segs: BTreeMap<usize, usize> = BTreeMap::new();
    let mut committed = 0usize;
    let mut have = 0usize; // contiguous bytes received up to here
    let mut visible = 0usize; // bytes the reader process has looked at
    let mut k = 0usize;
    let mut part = false;
    let mut steps = 0u32;
    let mut sched = 0u64;
    let seg = if big { 600 } else { 1 };
    let deadline = fault_end + 4000 + 40 * (total / seg) as u64;

    while let Some(Reverse((tm, _, ev))) = q.pop() {
        now = tm;
        steps += 1;
        r.st.ticks += 1;
        if k == recs.len() { break; }
        if now > deadline || steps > 60_000 {
            return bad("no-progress", format!("after faults stopped {} of {} records were delivered by tick {}", k, recs.len(), now));
        }
        let faulty = now < fault_end;
        sched = hash(&[sched, str_hash(&format!("{:?}", ev))]);
        match ev {
            Ev::PartOn => { part = true; r.st.fault("partition"); r.st.say(|| format!("t={} partition", now)); }
            Ev::PartOff => { part = false; }
            Ev::SenderCrash => { r.st.fault("sender-restart"); acked = 0; sent = 0; known = 0; r.st.say(|| format!("t={} sender restarts", now)); }
            Ev::Rto => {
                if sent > acked { r.st.probe("retransmission"); sent = acked; }
                // window of segments
                let mut wnd = 0;
                while sent < total && wnd < 6 {
                    let len = match seg_mode { 0 => total, 1 => 1 + r.t.below(3), 2 => 1 + r.t.below(if big { 4000 } else { 24 }), _ => 1 + r.t.below(9) }.max(if big { seg } else { 1 }).min(total - sent);
                    let from = sent;
                    sent += len;
                    wnd += 1;
                    let lost = faulty && (part || r.t.pct(loss));
                    if lost { r.st.fault("segment-lost"); r.st.say(|| format!("t={} segment {}..{} lost", now, from, from + len)); }
                    else { let d = 1 + r.t.below(jit + 1); at!(d, Ev::Seg(from, len)); }
                    if faulty && !part && dup > 0 && r.t.pct(dup) { r.st.fault("segment-duplicated"); let d = 1 + r.t.below(2 * jit + 9); at!(d, Ev::Seg(from, len)); }
                }
                let d = if sent < total || faulty { 30 } else { 60 };
                at!(d, Ev::Rto);
            }
            // an acknowledgement of a later incarnation of the reader tells where to resume
            Ev::Ack(e, o) => { if e > known { known = e; acked = o; sent = o; } else if e == known && o > acked { acked = o; } }
            Ev::Seg(from, len) => {
                if !up { r.st.count("segments-to-dead-reader"); continue; }
                if from > have { r.st.fault("segment-reordered"); r.st.probe("out-of-order-segment"); }
                let e = segs.entry(from).or_insert(0);
                *e = (*e).max(len);
                while let Some((f, l)) = segs.range(..=have).next_back().map(|x| (*x.0, *x.1)) { if f + l > have { have = f + l; } else { break; } }
                if !(faulty && (part || r.t.pct(loss))) { let d = 1 + r.t.below(jit + 1); at!(d, Ev::Ack(epoch, have)); } else { r.st.fault("ack-lost"); }
                if faulty && r.t.pct(8) { r.st.fault("reader-stall"); let d = 10 + r.t.below(60); at!(d, Ev::Poll); } else { at!(0, Ev::Poll); }
            }
            Ev::Crash => {
                if !up { continue; }
                r.st.fault("reader-crash");
                if visible > committed { r.st.probe("crash-mid-record"); }
                r.st.say(|| format!("t={} reader crashes, committed offset {}", now, committed));
                up = false; epoch += 1; segs.clear(); have = committed; visible = committed;
                let d = 5 + r.t.below(60); at!(d, Ev::ReaderUp);
            }
            Ev::ReaderUp => { up = true; }
            Ev::KeepAlive => {
                if up && !(faulty && (part || r.t.pct(loss))) { at!(1, Ev::Ack(epoch, have)); }
                at!(50, Ev::KeepAlive);
            }
            Ev::Poll => {
                if !up { continue; }
                while visible < have && k < recs.len() {
                    visible = visible.saturating_add(readmax).min(have);
                    // parse as long as records come out
                    loop {
                        if k == recs.len() { break; }
                        let rec = &recs[k];
                        let buf = &stream[committed..visible];
                        let need = rec.bytes.len();
                        let o = { let p = rec.case.plan(); let c = rec.case.clone(); r.exec(&c, buf, &p) };
                        r.st.state(&[rec.case.id as u64, buf.len().min(need) as u64, o.out.class() as u64]);
                        r.st.say(|| format!("t={} record {} of {}: {} of {} bytes there: {}", now, k + 1, recs.len(), buf.len(), need, o.out.short()));
                        if buf.len() < need {
                            r.st.probe("partial-parse");
                            match o.out {
                                Out::Inc(_) => break,
                                x => return bad("partial-record", format!("{} of {} bytes of record {} ({}) gave {} instead of a request for more input; {}", buf.len(), need, k, hex(&rec.bytes), x.short(), r.describe(&rec.case))),
                            }
                        }
                        if buf.len() > need { r.st.probe("several-records-in-buffer"); }
                        match &o.out {
                            Out::Ok { val, off, .. } if *off as usize == need && val.unplaced() == rec.val.unplaced() => {}
                            x => return bad("wrong-record", format!("record {} ({}) followed by {} more bytes: expected {:?} consuming {} bytes, got {}; {}", k, hex(&rec.bytes), buf.len() - need, rec.val, need, x.short(), r.describe(&rec.case))),
                        }
                        committed += need;
                        debug_assert_eq!(committed, starts[k + 1]);
                        k += 1;
                        r.st.count("records-delivered");
                        if now < fault_end && r.t.pct(4) { at!(0, Ev::Crash); }
                    }
                }
            }
        }
    }
    r.st.schedules.insert(sched);
    if k < recs.len() { return bad("no-progress", format!("only {} of {} records delivered", k, recs.len())); }
    Ok(())
}
