//! C03, C04, C09: records damaged on the wire.
use super::*;
use crate::exec::*;
use crate::model::Model;
use crate::rng::Rng;
use crate::rt::{Out, Plan};
use crate::schema::*;

const TAGS_HOSTILE: [&str; 6] = ["hostile", "pos", "pos_large", "lendata", "string", "large"];

pub const C03: Check = Check {
    id: "C03",
    pool: |w| vec![pool(w, |_, _| true), pool(w, |s, _| TAGS_HOSTILE.contains(&s.tag)), pool(w, |s, _| matches!(s.tag, "log" | "fault" | "names" | "check" | "enum"))],
    run: run03,
    quick: 3_000_000,
    rule: "one evaluation is one record damaged by the channel (cuts, bit flips, inserted, lost and duplicated bytes, extreme numbers, garbage) or plain noise, parsed twice with different bytes around it in memory; non-trivial when the damaged input is not empty; distinct by (declaration, length, outcome, error kind)",
    real: REAL,
    stub: "channel, receive buffer with canary surroundings, allocator (refuses single requests above 192 MiB)",
    no_alloc: true,
    probes: &["error", "incomplete", "accepted", "extreme-argument"],
};
pub const C04: Check = Check {
    id: "C04",
    pool: |w| vec![pool(w, |_, _| true), pool(w, |s, _| matches!(s.tag, "check" | "check_open" | "random" | "enum" | "enum_use" | "args_use" | "lifetime" | "string")), pool(w, |s, _| s.tag.starts_with("twin"))],
    run: run04,
    quick: 3_000_000,
    rule: "one evaluation is one record, intact or damaged by the channel, accepted or rejected by the real parser and by the reference interpreter of its declaration; non-trivial when the record was damaged or rejected; distinct by (declaration, outcome, error kind, error position)",
    real: REAL,
    stub: "channel; the reference interpreter is the oracle",
    no_alloc: true,
    probes: &["accepted", "rejected-Verify", "rejected-Tag", "rejected-Switch", "rejected-MapRes", "incomplete", "accepted-after-damage"],
};
pub const C09: Check = Check {
    id: "C09",
    pool: |w| vec![pool(w, |s, _| has_lengths(s)), pool(w, |s, _| s.tag == "hostile" || s.tag == "lendata" || s.tag == "string" || s.tag.contains("large")), pool(w, |_, _| true), pool(w, |s, _| super::log::sequence(s).is_some())],
    run: run09,
    quick: 1_500_000,
    rule: "one evaluation is one record in which counts and lengths are replaced by hostile ones, parsed under a metering allocator that refuses absurd requests; non-trivial when the parser requested memory; distinct by (declaration, outcome, magnitude of memory requested)",
    real: REAL,
    stub: "channel, global allocator (meters, refuses)",
    no_alloc: false,
    probes: &["hostile-claim", "allocated", "large-input", "long-sequence"],
};

fn has_lengths(s: &Schema) -> bool {
    s.all_attrs().iter().any(|a| matches!(a, At::Count(_) | At::LengthCount(..) | At::LengthBy(..) | At::Take(_))) || s.all_fields().iter().any(|f| matches!(f.ty, Ty::Str | Ty::Len(..) | Ty::LenOf(_)))
}

fn hostile_number(r: &mut Run) -> i64 {
    match r.t.below(14) { 0 => 0, 1 => -1, 2 => i64::MAX, 3 => i64::MIN, 4 => 1 << 31, 5 => 1 << 32, 6 => 65536, 7 => 1 << 62, 8 => 255, 9 => 65536 + r.t.below(9) as i64, 10 => (1 << 32) + r.t.below(9) as i64, 11 => 256 + r.t.below(9) as i64, 12 => -(1 << 31) - 1, _ => { let s = r.t.seed(); Rng::new(s).next() as i64 } }
}

/// the input that finally reaches the parser
fn delivered(r: &mut Run, c: &mut Case, clean: usize) -> (Vec<u8>, bool) {
    if r.t.pct(6) { let n = r.t.below(40); let s = r.t.seed(); let mut g = Rng::new(s); r.st.fault("noise"); return ((0..n).map(|_| { let x = g.next(); if x & 0x100 == 0 { (x & 7) as u8 } else { x as u8 } }).collect(), true); }
    let bad = *r.t.pick(&[0usize, 5, 30]);
    let (mut d, _) = r.record(c, bad);
    let m = r.t.below(100);
    if m < clean { if r.t.pct(30) { let n = r.t.below(6); let s = r.t.seed(); let mut g = Rng::new(s); for _ in 0..n { d.push(g.next() as u8); } } return (d, false); }
    r.damage(&mut d);
    if r.t.pct(10) && !c.args.is_empty() {
        let k = r.t.below(c.args.len());
        if let ArgTy::P(_) = r.w.cat.v[c.id].args[k].1 { let n = hostile_number(r); c.args[k] = n; r.st.probe("extreme-argument"); }
    }
    (d, true)
}

fn run03(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let mut c = r.case(&pools[if k >= 8 { 2 } else if k >= 4 { 1 } else { 0 }]);
    if r.t.pct(8) { let v = hostile_number(r); let n = r.t.below(8); c.env[n] = v.clamp(-(1 << 40), 1 << 40); if env_counts(r.w, c.id) { c.env[n] = v.rem_euclid(1000); } }
    let (d, _) = delivered(r, &mut c, 10);
    let s = r.lazy(&c);
    r.st.say(|| format!("input {} for {}", hex(&d), s));
    let plan = c.plan();
    let place = Place { off: 4096 + r.t.below(64), fill: 0 };
    let a = exec_at(r.w, &c, &d, &plan, place, false, None);
    r.st.see_obs(&a);
    r.st.ticks += 1;
    r.st.say(|| format!("outcome {}", a.out.short()));
    check03(r, &c, &d, &a)?;
    let fill = *r.t.pick(&[0xffu8, 0x01, 0x04, 0xdd, 0x80]);
    let b = exec_at(r.w, &c, &d, &plan, Place { off: place.off, fill }, false, None);
    r.st.see_obs(&b);
    if !a.same(&b) {
        return bad("outside-influence", format!("input {}: with bytes 0x00 around it the outcome is {}, with 0x{:02x} it is {}; {}", hex(&d), a.out.short(), fill, b.out.short(), r.describe(&c)));
    }
    let kind = match &a.out { Out::Err(_, k) | Out::Fail(_, k) => *k as u64 + 1, _ => 0 };
    r.st.state(&[c.id as u64, d.len() as u64, a.out.class() as u64, kind]);
    r.st.probe(match a.out.class() { 'o' => "accepted", 'i' => "incomplete", _ => "error" });
    Ok(())
}

/// session values used as repetition counts of possibly empty elements stay small
fn env_counts(w: &World, id: Id) -> bool { w.cat.any_schema(id, &|s| s.all_attrs().iter().any(|a| matches!(a, At::Count(_)) && at_any_ex(a, &|e| matches!(e, Ex::Env(_))))) }

fn check03(r: &Run, c: &Case, d: &[u8], o: &Obs) -> Verdict {
    let n = d.len() as i64;
    let say = |what: &str| format!("{}: input {} gave {}; {}", what, hex(d), o.out.short(), r.describe(c));
    match &o.out {
        Out::Panic(m) => return bad("panic", say(&format!("the parser panicked ({})", m))),
        Out::Ok { val, off, len } => {
            if *off < 0 || *len < 0 || off + len != n { return bad("remainder", say("the remainder is not a suffix of the input")); }
            let mut s = vec![];
            val.slices(&mut s);
            for (p, l) in s { if l > 0 && (p < 0 || p + l > n) { return bad("borrow", say("borrowed data lies outside the input")); } }
        }
        Out::Err(p, _) | Out::Fail(p, _) => if *p < 0 || *p > n { return bad("error-position", say("the error position lies outside the input")); },
        Out::Inc(x) => if *x == Some(0) { return bad("zero-request", say("zero bytes requested")); },
    }
    Ok(())
}

fn run04(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let mut c = r.case(&pools[if k >= 9 { 2 } else if k >= 5 { 1 } else { 0 }]);
    let (d, damaged) = delivered(r, &mut c, 40);
    let plan = c.plan();
    compare(r, &c, &d, &plan, "layout", true)?;
    if damaged { r.st.count("damaged-records"); }
    Ok(())
}

/// real code against the reference interpreter
pub fn compare(r: &mut Run, c: &Case, d: &[u8], plan: &Plan, class: &str, probes: bool) -> Verdict {
    let m = model(r.w, c, d, plan);
    if m.overrun { r.st.count("skipped-too-long"); return Ok(()); }
    let o = r.exec(c, d, plan);
    r.st.ticks += 1;
    let s = r.lazy(c);
    r.st.say(|| format!("input {} for {}\nreal {}\nreference {}", hex(d), s, o.out.short(), m.out.short()));
    let (kind, pos) = match &o.out { Out::Err(p, k) | Out::Fail(p, k) => (*k as u64 + 1, *p as u64), Out::Ok { off, .. } => (0, *off as u64), _ => (0, 0) };
    r.st.state(&[c.id as u64, o.out.class() as u64, kind, pos]);
    if !agree(&o.out, &m.out) {
        return bad(&format!("{}-{}{}", class, m.out.class(), o.out.class()), format!("input {} gives {}, its declaration says {}; {}", hex(d), o.out.short(), m.out.short(), r.describe(c)));
    }
    if probes {
        match &o.out {
            Out::Ok { .. } => { r.st.probe("accepted"); if r.st.counts.contains_key("fault:bit-flip") { r.st.probe("accepted-after-damage"); } }
            Out::Inc(_) => r.st.probe("incomplete"),
            Out::Err(_, k) => r.st.probe(&format!("rejected-{:?}", k)),
            _ => {}
        }
    }
    Ok(())
}

fn run09(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let long = r.t.pct(2);
    let mut c = r.case(&pools[if long { 3 } else if k == 9 { 2 } else if k >= 5 { 0 } else { 1 }]);
    // what is small for every element can be large for all of them
    let (mut d, _) = if long { r.st.probe("long-sequence"); let seed = r.t.seed(); Model::invent(&r.w.cat, c.id, c.fl, c.sel, &c.args, &c.plan(), seed, 4, 0, 40_000) } else { r.record(&c, 0) };
    // hostile lengths anywhere
    for _ in 0..r.t.below(3) {
        let w = *r.t.pick(&[1usize, 2, 4, 8]);
        let at = if r.t.pct(50) { 0 } else { r.t.below(d.len().max(1)) };
        let v: u64 = match r.t.below(7) { 0 => u64::MAX, 1 => 1 << 62, 2 => 0x7fff_ffff, 3 => 0x00ff_ffff, 4 => 0xffff, 5 => 1 << 28, _ => 0x0fff };
        let mut b = if v == u64::MAX { vec![0xff; w] } else { v.to_be_bytes()[8 - w..].to_vec() };
        if r.t.pct(50) { b.reverse(); }
        while d.len() < at + w { d.push(0); }
        d[at..at + w].copy_from_slice(&b);
        r.st.probe("hostile-claim");
        r.st.fault("hostile-length");
    }
    if r.t.pct(30) { let n = r.t.below(d.len() + 1); d.truncate(n); r.st.fault("truncated"); }
    if r.t.pct(15) { let s = r.t.seed(); let mut g = Rng::new(s); let n = *r.t.pick(&[100usize, 3000, 40_000]); for _ in 0..n { d.push((g.next() & 3) as u8); } }
    if r.t.pct(20) && !c.args.is_empty() { let k = r.t.below(c.args.len()); if let ArgTy::P(_) = r.w.cat.v[c.id].args[k].1 { c.args[k] = hostile_number(r); } }
    if d.len() > 20_000 { r.st.probe("large-input"); }
    let s = r.lazy(&c);
    r.st.say(|| format!("input {} for {}", hex(&d), s));
    // a second attempt after the refused request must not accumulate
    let o = r.exec(&c, &d, &c.plan());
    r.st.ticks += 1;
    let u = o.used;
    r.st.say(|| format!("outcome {}, memory {:?}", o.out.short(), u));
    if u.total > 0 { r.st.probe("allocated"); }
    r.st.add("bytes-requested", u.total);
    r.st.state(&[c.id as u64, o.out.class() as u64, 64 - (u.total.leading_zeros() as u64)]);
    let n = d.len() as i64;
    // constants: nom reserves up to 64 KiB ahead for each counted sequence being read, and up to a
    // fixed number of elements where a length is read first
    let reserve = r.w.cat.reserve(c.id) as i64;
    let peak = 5 * 65536 + 512 * n + reserve;
    let total = 16 * 65536 + 4096 * n + 2 * reserve;
    if let Out::Panic(m) = &o.out { return bad("panic", format!("parser panicked ({}) on {}; {}", m, hex(&d), r.describe(&c))); }
    if u.peak > peak || u.total as i64 > total {
        return bad("memory", format!("an input of {} bytes ({}) made the parser request {} bytes in total, {} at once (largest single request {}); outcome {}; {}", n, hex(&d), u.total, u.peak, u.biggest, o.out.short(), r.describe(&c)));
    }
    Ok(())
}
