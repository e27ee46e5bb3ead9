//! C15: twin declarations on the same stream; C16: the same history in three builds.
use super::*;
use crate::exec::*;
use crate::rt::Plan;
use crate::schema::*;

pub const C15: Check = Check {
    id: "C15",
    pool: |w| vec![pool(w, |s, _| matches!(s.twin, Some((_, Twin::Ge)))), pool(w, |s, _| matches!(s.twin, Some((_, Twin::Debug))))],
    run: run15,
    quick: 3_000_000,
    rule: "one evaluation is one stream, cut, damaged or struck by nested faults, attempted by a declaration and by its twin with generic errors (under the default and under a custom error type) or with tracing; non-trivial when both were run; distinct by (twin, bytes there, fault, outcome)",
    real: REAL,
    stub: "channel, nested parsers, custom error type",
    no_alloc: true,
    probes: &["custom-error", "traced", "error-compared", "incomplete-compared", "success-compared", "panic-compared"],
};
pub const C16: Check = Check {
    id: "C16",
    pool: |w| {
        // the same in every build
        let all = |n: u8| (0..w.cat.v.len()).filter(|i| w.cat.v[*i].level <= n).collect::<Vec<_>>();
        let core = |f: &dyn Fn(&Schema) -> bool| (0..w.cat.v.len()).filter(|i| w.cat.v[*i].level == 0 && f(&w.cat.v[*i])).collect::<Vec<_>>();
        vec![all(0), all(1), core(&|s| s.all_fields().iter().any(|f| matches!(f.ty, Ty::Arr(..)))), core(&|s| s.tag == "fault_core" || s.tag == "hooks")]
    },
    run: run16,
    quick: 2_000_000,
    rule: "one evaluation is one stream with cuts, damage and nested faults, attempted in the build with std, the build with alloc only and the build without alloc; the complete histories (outcomes, requested amounts, positions, user-code logs, drop ledger) are compared; non-trivial when at least two builds ran it; distinct by (declaration, bytes there, fault, outcome)",
    real: REAL,
    stub: "channel, nested parsers",
    no_alloc: false,
    probes: &["three-builds", "array", "incomplete", "success", "error"],
};

fn stream(r: &mut Run, c: &Case) -> (Vec<u8>, Plan) {
    let b = *r.t.pick(&[0usize, 0, 10, 30]);
    let (mut d, _) = r.record(c, b);
    match r.t.below(8) { 5 | 6 => { let n = r.t.below(d.len() + 1); d.truncate(n); r.st.fault("stream-cut"); } 7 => r.damage(&mut d), _ => {} }
    let mut plan = c.plan();
    if r.t.pct(35) {
        let calls = model(r.w, c, &d, &plan).calls;
        if calls > 0 { let n = r.t.below(calls as usize) as u32; let f = r.fault(); plan.faults.push((n, f)); }
    }
    (d, plan)
}

fn run15(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let ct = r.case(&pools[if k >= 7 { 1 } else { 0 }]);
    let (base, kind) = r.w.cat.v[ct.id].twin.unwrap();
    let cb = Case { id: base, ..ct.clone() };
    let (d, plan) = stream(r, &cb);
    let s = r.lazy(&ct);
    r.st.say(|| format!("stream {} faults {:?} for {}", hex(&d), plan.faults, s));
    for _ in 0..2 {
        let have = if r.t.pct(70) { d.len() } else { r.t.below(d.len() + 1) };
        let x = &d[..have];
        let a = r.exec(&cb, x, &plan);
        let b = r.exec(&ct, x, &plan);
        r.st.ticks += 1;
        r.st.say(|| format!("{} bytes: plain {}, twin {}", have, a.out.short(), b.out.short()));
        r.st.probe(match a.out.class() { 'o' => "success-compared", 'i' => "incomplete-compared", 'p' => "panic-compared", _ => "error-compared" });
        r.st.state(&[ct.id as u64, have as u64, plan.faults.first().map_or(0, |f| f.0 as u64 + 1), a.out.class() as u64]);
        if !a.same(&b) {
            return bad("twin-differs", format!("on {} (faults {:?}) the declaration gives {} with log {:?}, the same with {:?} gives {} with log {:?}; {}", hex(x), plan.faults, a.out.short(), a.events, kind, b.out.short(), b.events, r.describe(&ct)));
        }
        if kind == Twin::Debug { r.st.probe("traced"); }
        if kind == Twin::Ge {
            let g = exec_ge(r.w, &ct, x, &plan);
            r.st.see_obs(&g);
            r.st.probe("custom-error");
            if !a.same(&g) {
                return bad("custom-error-differs", format!("on {} (faults {:?}) the declaration gives {}, with a custom error type {}; {}", hex(x), plan.faults, a.out.short(), g.out.short(), r.describe(&ct)));
            }
        }
    }
    Ok(())
}

fn run16(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let c = r.case(&pools[if k >= 9 { 3 } else if k >= 6 { 2 } else if k >= 3 { 1 } else { 0 }]);
    let level = r.w.cat.v[c.id].level;
    let (d, plan) = stream(r, &c);
    let attempts = 1 + r.t.below(3);
    let s = r.lazy(&c);
    r.st.say(|| format!("stream {} faults {:?} for {}", hex(&d), plan.faults, s));
    for n in 0..attempts {
        let have = if n == 0 { d.len() } else { r.t.below(d.len() + 1) };
        if level > r.w.level { continue; }
        let o = r.exec(&c, &d[..have], &plan);
        r.st.ticks += 1;
        // everything observable is part of the fingerprint compared between the builds
        r.st.see(str_hash(&format!("{:?}", o.ledger)));
        r.st.say(|| format!("{} bytes: {} log {:?} ledger {:?}", have, o.out.short(), o.events, o.ledger));
        if level == 0 { r.st.probe("three-builds"); }
        if r.w.cat.v[c.id].all_fields().iter().any(|f| matches!(f.ty, Ty::Arr(..))) { r.st.probe("array"); }
        r.st.probe(match o.out.class() { 'o' => "success", 'i' => "incomplete", _ => "error" });
        r.st.state(&[c.id as u64, have as u64, plan.faults.first().map_or(0, |f| f.0 as u64 + 1), o.out.class() as u64]);
    }
    // a build that cannot run the declaration leaves no fingerprint
    if level > r.w.level { r.st.digest = 0; }
    Ok(())
}
