//! C19: a receiver that does not copy: received segments are parsed where they lie.
use super::*;
use crate::exec::*;
use crate::rt::Out;

pub const C19: Check = Check {
    id: "C19",
    pool: |w| vec![pool(w, |s, _| s.tag == "rope"), pool(w, |s, _| s.tag == "rope" && w.cat.sch_any_ty(s, &|t| matches!(t, crate::schema::Ty::Tok | crate::schema::Ty::Mini | crate::schema::Ty::Only)))],
    run,
    quick: 1_000_000,
    rule: "one evaluation is one stream attempted repeatedly, as segments arrive, by the Parse implementations of the library, once over the contiguous bytes and twice over an input made of segments (empty, one byte, mixed, whole), under the same faults of nested parsers; non-trivial when a segmented input was parsed; distinct by (type, bytes there, outcome, faults)",
    real: "the Parse and LengthData implementations of nom-derive, nom itself, compiled from the working tree",
    stub: "segmented input (an implementation of nom's Input), network, nested parsers (fault injectors); the contiguous run and the reference interpreter are the oracles",
    no_alloc: true,
    probes: &["segmented", "regrown-between-attempts", "fault-fired", "accepted", "incomplete", "error", "custom-error-type"],
};

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let mut c = r.case(&pools[if k >= 6 { 1 } else { 0 }]);
    c.sel = 0;
    let bad_ = *r.t.pick(&[0usize, 0, 10]);
    let (mut d, _) = r.record(&c, bad_);
    match r.t.below(5) { 3 => r.damage(&mut d), 4 => { let n = r.t.below(9); let s = r.t.seed(); let mut g = crate::rng::Rng::new(s); for _ in 0..n { d.push(g.next() as u8); } } _ => {} }
    let ge = r.t.pct(30);
    if ge { r.st.probe("custom-error-type"); }
    let steps = 1 + r.t.below(4);
    for n in 0..steps {
        let have = if n + 1 == steps { d.len() } else { r.t.below(d.len() + 1) };
        if n > 0 { r.st.probe("regrown-between-attempts"); }
        let x = &d[..have];
        let mut plan = c.plan();
        let m = model(r.w, &c, x, &plan);
        if m.overrun { r.st.count("skipped-too-long"); return Ok(()); }
        if m.calls > 0 && r.t.pct(50) {
            let n = r.t.below(m.calls as usize) as u32;
            let f = r.fault();
            plan.faults.push((n, f));
            if r.t.pct(25) { let q = n + 1 + r.t.below(6) as u32; let f = r.fault(); plan.faults.push((q, f)); }
        }
        let m = model(r.w, &c, x, &plan);
        if m.overrun { r.st.count("skipped-too-long"); return Ok(()); }
        let flat = exec_at(r.w, &c, x, &plan, HERE, ge, None);
        r.st.see_obs(&flat);
        r.note(&flat);
        r.st.ticks += 1;
        if flat.fired > 0 { r.st.probe("fault-fired"); }
        r.st.probe(match flat.out { Out::Ok { .. } => "accepted", Out::Inc(_) => "incomplete", _ => "error" });
        r.st.say(|| format!("{} via {:?} over {} (faults {:?}), contiguous: {}", tname(r.w, c.id), c.fl, hex(x), plan.faults, flat.out.short()));
        for _ in 0..2 {
            let seg = Case { sel: 1 + r.t.below(1 << 30) as i64, ..c.clone() };
            let o = exec_at(r.w, &seg, x, &plan, HERE, ge, None);
            r.st.see_obs(&o);
            r.st.probe("segmented");
            r.st.fault("segmented-input");
            r.st.state(&[c.id as u64, have as u64, o.out.class() as u64, o.fired as u64]);
            r.st.say(|| format!("segmentation {}: {}", seg.sel, o.out.short()));
            if !o.same(&flat) {
                return bad("segments", format!("{} via {:?} on {} (faults {:?}): contiguous gives {}, in segments {} (user code {} and {} calls)", tname(r.w, c.id), c.fl, hex(x), plan.faults, flat.out.short(), o.out.short(), flat.calls, o.calls));
            }
            if let Err(e) = &o.ledger { return bad("drops", format!("{} via {:?} on {} (faults {:?}) in segments: {}", tname(r.w, c.id), c.fl, hex(x), plan.faults, e)); }
        }
        if !agree(&flat.out, &m.out) || flat.events != m.events {
            return bad("value", format!("{} via {:?} on {} (faults {:?}) gives {}, the bytes stand for {}", tname(r.w, c.id), c.fl, hex(x), plan.faults, flat.out.short(), m.out.short()));
        }
    }
    Ok(())
}
fn tname(w: &World, id: Id) -> String { crate::ropecat::text(&w.cat.v[id].all_fields()[0].ty, "I") }
