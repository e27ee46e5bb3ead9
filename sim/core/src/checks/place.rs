//! C11: the receive buffer lies anywhere, is compacted and regrown between attempts, and holds
//! other traffic before the record.
use super::*;
use crate::exec::*;
use crate::rt::Out;
use crate::schema::*;

fn positional(w: &World, i: Id) -> bool {
    w.cat.any_schema(i, &|s| s.all_attrs().iter().any(|a| matches!(a, At::AlignBefore(_) | At::AlignAfter(_) | At::SkipBefore(_) | At::SkipAfter(_) | At::Move(_) | At::MoveAbs(_))))
}
pub const C11: Check = Check {
    id: "C11",
    pool: |w| vec![pool(w, |_, i| positional(w, i)), pool(w, |s, _| s.tag.starts_with("pos")), pool(w, |_, _| true)],
    run,
    quick: 1_200_000,
    rule: "one evaluation is one record parsed in a receive buffer that is moved to several addresses and misalignments, regrown between attempts on partial data, and preceded by other traffic; all attempts on the same bytes must agree exactly, and with the reference interpreter; non-trivial when at least two placements were compared; distinct by (declaration, misalignment modulo 64, bytes there, outcome)",
    real: REAL,
    stub: "receive buffer (placement, compaction, regrowth), peer; the reference interpreter is the oracle for positions of nested types",
    no_alloc: true,
    probes: &["moved", "regrown-between-attempts", "after-other-traffic", "positional-success", "misaligned"],
};

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let c = r.case(&pools[if k == 9 { 2 } else if k >= 5 { 1 } else { 0 }]);
    let bad_ = *r.t.pick(&[0usize, 0, 10]);
    let (mut d, _) = r.record(&c, bad_);
    match r.t.below(6) { 4 => r.damage(&mut d), 5 => { let n = r.t.below(7); let s = r.t.seed(); let mut g = crate::rng::Rng::new(s); for _ in 0..n { d.push(g.next() as u8); } } _ => {} }
    let s = r.lazy(&c);
    r.st.say(|| format!("bytes {} for {}", hex(&d), s));
    let plan = c.plan();
    let other = if r.t.pct(40) { let c2 = r.case(&pools[0]); let (d2, _) = r.record(&c2, 0); Some((c2, d2)) } else { None };
    let steps = 1 + r.t.below(3);
    for n in 0..steps {
        let have = if n + 1 == steps { d.len() } else { r.t.below(d.len() + 1) };
        if n > 0 { r.st.probe("regrown-between-attempts"); r.st.fault("buffer-regrown"); }
        let x = &d[..have];
        let base = exec_at(r.w, &c, x, &plan, HERE, false, None);
        r.st.see_obs(&base);
        r.st.say(|| format!("{} bytes at page start: {}", have, base.out.short()));
        for _ in 0..2 {
            if let Some((c2, d2)) = &other { let o = exec_at(r.w, c2, d2, &c2.plan(), HERE, false, None); r.st.see_obs(&o); r.st.probe("after-other-traffic"); }
            let off = match r.t.below(4) { 0 => 4096 + 1 + r.t.below(15), 1 => 64 + r.t.below(4096), 2 => 4096 + 64 * r.t.below(8) + r.t.below(64), _ => 4096 + r.t.below(30_000) };
            let fill = *r.t.pick(&[0u8, 0xff, 3]);
            let o = exec_at(r.w, &c, x, &plan, Place { off, fill }, false, None);
            r.st.see_obs(&o);
            r.st.ticks += 1;
            r.st.probe("moved");
            r.st.fault("buffer-moved");
            if off % 8 != 0 { r.st.probe("misaligned"); }
            r.st.state(&[c.id as u64, off as u64 % 64, have as u64, o.out.class() as u64]);
            r.st.say(|| format!("{} bytes at offset {}: {}", have, off, o.out.short()));
            if !o.same(&base) {
                return bad("placement", format!("bytes {} at address 0 modulo 65536 give {}, at address {} modulo 65536 {}; {}", hex(x), base.out.short(), off, o.out.short(), r.describe(&c)));
            }
        }
        let m = model(r.w, &c, x, &plan);
        if let Out::Ok { .. } = m.out { if positional(r.w, c.id) { r.st.probe("positional-success"); } }
        if !m.overrun && !agree(&base.out, &m.out) {
            return bad("position", format!("bytes {} give {}, positions counted from the start of the record give {}; {}", hex(x), base.out.short(), m.out.short(), r.describe(&c)));
        }
        // the amount requested is a matter of positions too
        if !m.overrun { if let (Out::Inc(Some(a)), Out::Inc(Some(b))) = (&base.out, &m.out) { if a > b && !crate::catalog::open_ended(&r.w.cat, c.id) {
            return bad("amount", format!("bytes {} ask for {} more, positions counted from the start of the record need {}; {}", hex(x), a, b, r.describe(&c)));
        } } }
    }
    Ok(())
}
