//! C07, C08, C10: nested and user-supplied parsers that fail at the n-th call.
use super::*;
use crate::exec::*;
use crate::rt::{Fault, Out, Plan};
use crate::schema::*;

fn calls_user(w: &World, i: Id) -> bool {
    w.cat.sch_any_ty(&w.cat.v[i], &|t| matches!(t, Ty::Tok | Ty::Mini | Ty::Only | Ty::Nat)) || w.cat.any_schema(i, &|s| s.all_attrs().iter().any(|a| matches!(a, At::Parse(UP::Strict | UP::Tok(_) | UP::Mini(_)) | At::Pre(_, HookK::Try) | At::Post(_, HookK::Try))))
}
fn toks(w: &World, i: Id) -> bool { w.cat.sch_any_ty(&w.cat.v[i], &|t| matches!(t, Ty::Tok)) }
fn holds_heap(w: &World, i: Id) -> bool { w.cat.sch_any_ty(&w.cat.v[i], &|t| matches!(t, Ty::Vec(_) | Ty::Str)) }
fn logs(w: &World, i: Id) -> bool {
    w.cat.any_schema(i, &|s| s.all_attrs().iter().any(|a| matches!(a, At::Pre(..) | At::Post(..) | At::Map(_)) || at_any_ex(a, &|e| matches!(e, Ex::Env(_))) || matches!(a, At::SetEndian(EnEx::Env(_)) | At::Cond(Pr::Log(..), _) | At::Verify(Pr::Log(..)) | At::ErrorIf(Pr::Log(..)))))
}

pub const C07: Check = Check {
    id: "C07",
    pool: |w| vec![pool(w, |_, i| calls_user(w, i)), pool(w, |s, _| s.tag.starts_with("fault"))],
    run: run07,
    quick: 3_000_000,
    rule: "one evaluation is one record, possibly cut or damaged, in whose parse the n-th call of a nested or user-supplied parser returns an error, a failure, a request for more input, or panics, compared with what the declaration says must come out; non-trivial when the fault fired; distinct by (declaration, call, fault kind, outcome)",
    real: REAL,
    stub: "nested parsers (fault injectors); the reference interpreter is the oracle",
    no_alloc: true,
    probes: &["failure-reached-caller", "panic-reached-caller", "error-absorbed", "incomplete-absorbed", "error-reached-caller", "incomplete-reached-caller"],
};
pub const C08: Check = Check {
    id: "C08",
    pool: |w| vec![pool(w, |_, i| logs(w, i)), pool(w, |s, _| s.tag == "hooks"), pool(w, |s, i| s.tag == "random" && logs(w, i))],
    run: run08,
    quick: 2_000_000,
    rule: "one evaluation is one stream on which a declaration with user code is attempted repeatedly as bytes arrive and faults strike, each attempt's log of user-code calls compared with the declared order; non-trivial when at least one call was logged; distinct by (declaration, length of the log, outcome, fault)",
    real: REAL,
    stub: "user code (statements, conditions, parsers) recording its calls; stream; the reference interpreter is the oracle",
    no_alloc: true,
    probes: &["retry", "stopped-by-fault", "log-of-10"],
};
pub const C10: Check = Check {
    id: "C10",
    pool: |w| vec![pool(w, |_, i| toks(w, i)), pool(w, |s, i| s.tag.starts_with("fault") && toks(w, i)), pool(w, |_, i| holds_heap(w, i))],
    run: run10,
    quick: 3_000_000,
    rule: "one evaluation is one record whose nested values are tracked from birth to drop while a fault, a panic or a cut strikes at a chosen call; non-trivial when at least one value was built; distinct by (declaration, values built, fault kind, outcome)",
    real: REAL,
    stub: "nested parsers building tracked values (fault injectors)",
    no_alloc: true,
    probes: &["built-before-fault", "panic-with-live-values", "incomplete-with-live-values", "success-with-values", "heap-balance"],
};

fn faulty_plan(r: &mut Run, c: &Case, calls: u32) -> Plan {
    let mut plan = c.plan();
    if calls > 0 && r.t.pct(88) {
        let n = r.t.below(calls as usize) as u32;
        let f = r.fault();
        plan.faults.push((n, f));
        // a second one, which matters only where the first is absorbed
        if r.t.pct(25) { let m = n + 1 + r.t.below(6) as u32; let f = r.fault(); plan.faults.push((m, f)); }
    }
    plan
}

fn input(r: &mut Run, c: &Case) -> Vec<u8> {
    let bad = *r.t.pick(&[0usize, 0, 8, 25]);
    let (mut d, _) = r.record(c, bad);
    match r.t.below(10) { 8 => { let n = r.t.below(d.len() + 1); d.truncate(n); r.st.fault("truncated"); } 9 => r.damage(&mut d), _ => {} }
    d
}

fn run07(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let c = r.case(&pools[if k >= 6 { 1 } else { 0 }]);
    let d = input(r, &c);
    let calls = model(r.w, &c, &d, &c.plan()).calls;
    let plan = faulty_plan(r, &c, calls);
    let m = model(r.w, &c, &d, &plan);
    if m.overrun { return Ok(()); }
    let o = r.exec(&c, &d, &plan);
    r.st.ticks += 1;
    let s = r.lazy(&c);
    r.st.say(|| format!("input {} faults {:?} for {}\nreal {}\nreference {}", hex(&d), plan.faults, s, o.out.short(), m.out.short()));
    let last = plan.faults.iter().filter(|f| f.0 < o.calls).last().map(|f| f.1);
    r.st.state(&[c.id as u64, plan.faults.first().map_or(0, |f| f.0 as u64 + 1), plan.faults.first().map_or(9, |f| kind(f.1)), o.out.class() as u64]);
    // amounts are compared when the request is the injected one
    let amounts = matches!((&m.out, last), (Out::Inc(Some(3)), Some(Fault::Inc(3))) | (Out::Inc(None), _)) && o.calls == m.calls;
    if o.fired > 0 {
        match (last, o.out.class()) {
            (Some(Fault::Failure), 'f') => r.st.probe("failure-reached-caller"),
            (Some(Fault::Panic), 'p') => r.st.probe("panic-reached-caller"),
            (Some(Fault::Error), 'e') => r.st.probe("error-reached-caller"),
            (Some(Fault::Error), _) => r.st.probe("error-absorbed"),
            (Some(Fault::Inc(_) | Fault::IncUnknown), 'i') => r.st.probe("incomplete-reached-caller"),
            (Some(Fault::Inc(_) | Fault::IncUnknown), _) => r.st.probe("incomplete-absorbed"),
            _ => {}
        }
        // whatever the declaration, these always reach the caller
        if plan.faults.iter().any(|f| f.1 == Fault::Failure && f.0 + 1 == o.calls) && !matches!(o.out, Out::Fail(_, nom::error::ErrorKind::Fail)) {
            return bad("failure-swallowed", format!("input {}, faults {:?}: a failure was raised and {} came out; {}", hex(&d), plan.faults, o.out.short(), r.describe(&c)));
        }
        if plan.faults.iter().any(|f| f.1 == Fault::Panic && f.0 < o.calls) && o.out != Out::Panic("injected".into()) {
            return bad("panic-swallowed", format!("input {}, faults {:?}: user code panicked and {} came out; {}", hex(&d), plan.faults, o.out.short(), r.describe(&c)));
        }
    }
    if !agree(&o.out, &m.out) || (amounts && o.out != m.out) {
        return bad(&format!("fault-{}{}", m.out.class(), o.out.class()), format!("input {}, faults {:?}: {} came out, the declaration says {}; {}", hex(&d), plan.faults, o.out.short(), m.out.short(), r.describe(&c)));
    }
    Ok(())
}
fn kind(f: Fault) -> u64 { match f { Fault::Error => 0, Fault::Failure => 1, Fault::Inc(_) => 2, Fault::IncUnknown => 3, Fault::Panic => 4 } }

fn run08(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let mut c = r.case(&pools[if k >= 7 { 2 } else if k >= 3 { 1 } else { 0 }]);
    let d = input(r, &c);
    let s = r.lazy(&c);
    r.st.say(|| format!("stream {} for {}", hex(&d), s));
    // attempts on a growing buffer, with faults, and with session values that may change in between
    let attempts = 1 + r.t.below(4);
    let mut have = if attempts == 1 || d.is_empty() { d.len() } else { r.t.below(d.len()) };
    let mut sched = 0;
    for n in 0..attempts {
        if n + 1 == attempts { have = d.len(); }
        let x = &d[..have];
        let calls = model(r.w, &c, x, &c.plan()).calls;
        let plan = if r.t.pct(35) { faulty_plan(r, &c, calls) } else { c.plan() };
        let m = model(r.w, &c, x, &plan);
        if m.overrun { return Ok(()); }
        let o = r.exec(&c, x, &plan);
        r.st.ticks += 1;
        if n > 0 { r.st.probe("retry"); r.st.fault("attempt-repeated"); }
        if o.fired > 0 && o.out.class() != 'o' { r.st.probe("stopped-by-fault"); }
        if o.events.len() >= 10 { r.st.probe("log-of-10"); }
        r.st.state(&[c.id as u64, o.events.len() as u64, o.out.class() as u64, plan.faults.first().map_or(9, |f| kind(f.1))]);
        sched = crate::rng::hash(&[sched, have as u64, plan.faults.first().map_or(99, |f| f.0 as u64)]);
        r.st.say(|| format!("attempt {}: {} bytes, faults {:?}\nreal {} log {:?}\nreference {} log {:?}", n, have, plan.faults, o.out.short(), o.events, m.out.short(), m.events));
        let hx: Vec<_> = o.events.iter().collect();
        let mx: Vec<_> = m.events.iter().collect();
        if hx != mx {
            let i = (0..hx.len().max(mx.len())).find(|i| hx.get(*i) != mx.get(*i)).unwrap();
            return bad("user-code-log", format!("attempt {} on {} (faults {:?}): call number {} of user code is {:?}, the declaration says {:?}; real outcome {}, log {:?}; {}", n, hex(x), plan.faults, i, hx.get(i), mx.get(i), o.out.short(), hx.iter().take(30).collect::<Vec<_>>(), r.describe(&c)));
        }
        if have < d.len() { have += 1 + r.t.below(d.len() - have); }
        if r.t.pct(15) { c.env = r.session(); r.st.fault("session-changed"); }
    }
    r.st.schedules.insert(sched);
    Ok(())
}

fn run10(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let c = r.case(&pools[if k >= 8 && !pools[2].is_empty() { 2 } else if k >= 5 { 1 } else { 0 }]);
    let d = input(r, &c);
    let calls = model(r.w, &c, &d, &c.plan()).calls;
    let plan = faulty_plan(r, &c, calls);
    let o = r.exec(&c, &d, &plan);
    r.st.ticks += 1;
    let s = r.lazy(&c);
    r.st.say(|| format!("input {} faults {:?} for {}\nreal {} ledger {:?}", hex(&d), plan.faults, s, o.out.short(), o.ledger));
    let built = o.calls.saturating_sub(o.fired) as u64;
    r.st.state(&[c.id as u64, built, plan.faults.first().map_or(9, |f| kind(f.1)), o.out.class() as u64]);
    if built > 0 {
        match o.out.class() { 'o' => r.st.probe("success-with-values"), 'p' => r.st.probe("panic-with-live-values"), 'i' => r.st.probe("incomplete-with-live-values"), _ => {} }
        if o.fired > 0 { r.st.probe("built-before-fault"); }
    }
    // memory: whatever the attempt allocated has been given back (twice in a row, so that nothing set up once counts)
    if o.out.class() != 'p' && o.used.count > 0 {
        r.st.probe("heap-balance");
        if o.used.left != 0 {
            // (which of the two happens depends on what the process did before, so it stays out of the fingerprint)
            let seen = r.st.digest;
            let o2 = r.exec(&c, &d, &plan);
            r.st.digest = seen;
            if o2.used.left != 0 { return bad("heap", format!("input {}, faults {:?}, outcome {}: {} bytes allocated during the parse were never given back; {}", hex(&d), plan.faults, o.out.short(), o2.used.left, r.describe(&c))); }
        }
    }
    if let Err(e) = &o.ledger { return bad("ledger", format!("input {}, faults {:?}, outcome {}: {}; {}", hex(&d), plan.faults, o.out.short(), e, r.describe(&c))); }
    Ok(())
}
