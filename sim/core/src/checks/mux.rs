//! C14: a link multiplexing known, unknown and damaged messages; frames are lost, duplicated and
//! reordered, and the receiver skips messages it does not know.
use super::*;
use crate::catalog::open_ended;
use crate::exec::*;
use crate::model::selectors;
use crate::rng::{mix, Rng};
use crate::rt::{Out, Val};
use crate::schema::*;
use nom::error::ErrorKind;

pub const C14: Check = Check {
    id: "C14",
    pool: |w| vec![
        pool(w, |s, _| matches!(s.body, Body::Enum { .. })),
        pool(w, |s, _| matches!(s.body, Body::Fieldless { .. })),
        pool(w, |s, _| matches!(s.body, Body::Enum { .. }) && s.tag.starts_with("enum")),
        pool(w, |s, _| s.tag == "enum_use"),
    ],
    run,
    quick: 3_000_000,
    rule: "one evaluation is one multiplexed link carrying 1-8 messages of an enumeration, known, unknown or damaged, in frames that are lost, duplicated and reordered, decoded from one receive buffer and skipped when unknown; non-trivial when a message was decoded or skipped; distinct by (declaration, selector, variant, outcome)",
    real: REAL,
    stub: "link, framing, receiver; first-match rule evaluated on the declaration, reference interpreter for the payload",
    no_alloc: true,
    probes: &["unknown-selector", "decoded-after-unknown", "catch-all", "overlap-decided-by-order", "guard", "wire-number-unknown", "wire-number-known"],
};

struct Msg { sel: i64, bytes: Vec<u8> }

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(20);
    if k >= 19 && r.w.level > 0 { // used inside other declarations
        let c = r.case(&pools[3]);
        let (mut d, _) = r.record(&c, 0);
        if r.t.pct(50) { r.damage(&mut d); }
        let p = c.plan();
        return super::mutate::compare(r, &c, &d, &p, "nested-selector", false);
    }
    let fieldless = k >= 14;
    let c0 = r.case(&pools[if fieldless { 1 } else if k >= 5 { 2 } else { 0 }]);
    let sch = &r.w.cat.v[c0.id];
    let mut msgs = vec![];
    for _ in 0..1 + r.t.below(8) {
        let sel = if fieldless { 0 } else if r.t.pct(25) { r.t.below(300) as i64 } else if r.t.pct(10) { let s = r.t.seed(); mix(s) as i64 } else { *r.t.pick(&selectors(sch)) };
        let c = Case { sel, ..c0.clone() };
        let (mut bytes, _) = r.record(&c, 0);
        if r.t.pct(12) { r.damage(&mut bytes); }
        msgs.push(Msg { sel, bytes });
    }
    // the link
    let mut wire: Vec<usize> = vec![];
    for k in 0..msgs.len() {
        if r.t.pct(8) { r.st.fault("frame-lost"); continue; }
        wire.push(k);
        if r.t.pct(8) { r.st.fault("frame-duplicated"); wire.push(k); }
        if wire.len() > 1 && r.t.pct(10) { r.st.fault("frame-reordered"); let n = wire.len(); wire.swap(n - 1, n - 2); }
    }
    let s = r.lazy(&c0);
    r.st.say(|| format!("link of {}", s));
    let selfdel = !open_ended(&r.w.cat, c0.id);
    let mut buf: Vec<u8> = wire.iter().flat_map(|k| msgs[*k].bytes.iter().copied()).collect();
    let tail = r.t.below(5);
    let sd = r.t.seed();
    let mut g = Rng::new(sd);
    for _ in 0..tail { buf.push(g.next() as u8); }
    let mut at = 0;
    let mut after_unknown = false;
    let mut sched = 0;
    for k in &wire {
        let m = &msgs[*k];
        let c = Case { sel: m.sel, ..c0.clone() };
        let plan = c.plan();
        // a self-delimiting message is decoded in place, others from their frame
        let x: Vec<u8> = if selfdel { buf[at..].to_vec() } else { m.bytes.clone() };
        let mo = model(r.w, &c, &x, &plan);
        if mo.overrun { return Ok(()); }
        let o = r.exec(&c, &x, &plan);
        r.st.ticks += 1;
        r.st.say(|| format!("selector {} bytes {}: real {}, declared {}", c.sel, hex(&x), o.out.short(), mo.out.short()));
        let variant = match &o.out { Out::Ok { val: Val::V(v, _), .. } => *v as u64 + 1, _ => 0 };
        r.st.state(&[c.id as u64, c.sel as u64, variant, o.out.class() as u64]);
        sched = crate::rng::hash(&[sched, c.sel as u64, variant]);
        match &sch.body {
            Body::Enum { sel: q, variants, .. } => {
                let want = first_match(sch, *q, variants, &c);
                if let Some(v) = want {
                    if variants[v].pat == Pat::Wild && variants[v].guard.is_none() { r.st.probe("catch-all"); }
                    if variants[v].guard.is_some() { r.st.probe("guard"); }
                    if matching(sch, *q, variants, &c) > 1 { r.st.probe("overlap-decided-by-order"); }
                } else { r.st.probe("unknown-selector"); }
                match (&o.out, want) {
                    (Out::Ok { val: Val::V(v, _), .. }, Some(w)) if *v == w => {}
                    (Out::Ok { val, .. }, w) => return bad("variant", format!("selector {} picked {:?}, the first match is variant {:?}; {}", c.sel, val, w.map(|w| &variants[w].name), r.describe(&c))),
                    (Out::Err(p, ErrorKind::Switch), None) => { let pre = preroll(sch); if *p != pre { return bad("unknown-position", format!("unknown selector {} reported at {} instead of {}; {}", c.sel, p, pre, r.describe(&c))); } }
                    _ => {}
                }
            }
            _ => { r.st.probe(if let Out::Ok { .. } = o.out { "wire-number-known" } else { "wire-number-unknown" }); }
        }
        if !agree(&o.out, &mo.out) {
            return bad(&format!("selected-{}{}", mo.out.class(), o.out.class()), format!("selector {} on {}: {} came out, the declaration says {}; {}", c.sel, hex(&x), o.out.short(), mo.out.short(), r.describe(&c)));
        }
        match o.out {
            Out::Ok { .. } => { if after_unknown { r.st.probe("decoded-after-unknown"); } }
            Out::Err(_, ErrorKind::Switch) => { after_unknown = true; r.st.fault("message-unknown"); }
            _ => {}
        }
        at += m.bytes.len();
    }
    r.st.schedules.insert(sched);
    Ok(())
}

/// bytes consumed by statements before the selector is looked at
fn preroll(s: &Schema) -> i64 { s.top.iter().map(|a| if let At::Pre(_, HookK::Eat(n)) = a { *n as i64 } else { 0 }).sum() }

fn val(q: P, x: i64) -> i128 {
    match q { P::U8 => x as u8 as i128, P::U16 => x as u16 as i128, P::U32 => x as u32 as i128, P::U64 => x as u64 as i128, P::I8 => x as i8 as i128, P::I16 => x as i16 as i128, P::I32 => x as i32 as i128, _ => x as i128 }
}
fn hit(s: &Schema, q: P, v: &Variant, c: &Case) -> bool {
    let n = val(q, c.sel);
    let m = v.pat.has(n);
    m && v.guard.as_ref().map_or(true, |g| guard(s, g, n as i64, c))
}
fn guard(s: &Schema, g: &Pr, n: i64, c: &Case) -> bool {
    fn e(s: &Schema, x: &Ex, n: i64, c: &Case) -> i64 {
        match x { Ex::C(k) => *k, Ex::Own => n, Ex::A(i) => if let ArgTy::P(q) = s.args[*i].1 { val(q, c.args[*i]) as i64 } else { 0 }, Ex::Mod(a, k) => e(s, a, n, c).rem_euclid(*k), Ex::And(a, b) => e(s, a, n, c) & e(s, b, n, c), _ => 0 }
    }
    match g {
        Pr::Cmp(k, a, b) => { let (x, y) = (e(s, a, n, c), e(s, b, n, c)); match k { Cmp::Eq => x == y, Cmp::Ne => x != y, Cmp::Lt => x < y, Cmp::Le => x <= y, Cmp::Gt => x > y } }
        Pr::Not(a) => !guard(s, a, n, c),
        Pr::And(a, b) => guard(s, a, n, c) && guard(s, b, n, c),
        Pr::Or(a, b) => guard(s, a, n, c) || guard(s, b, n, c),
        _ => true,
    }
}
fn first_match(s: &Schema, q: P, vs: &[Variant], c: &Case) -> Option<usize> {
    let wild = |v: &Variant| v.pat == Pat::Wild && v.guard.is_none();
    vs.iter().position(|v| !wild(v) && hit(s, q, v, c)).or_else(|| vs.iter().position(wild))
}
fn matching(s: &Schema, q: P, vs: &[Variant], c: &Case) -> usize { vs.iter().filter(|v| v.pat != Pat::Wild && hit(s, q, v, c)).count() }
