//! C13: a connection on which the peers change the byte order of the session between and during
//! attempts, entry points alternate, and several declarations share the connection.
use super::*;
use crate::exec::*;
use crate::rt::Out;
use crate::schema::*;

const T: [&str; 10] = ["wrap", "endian", "endian_open", "endian_core", "endian_enum", "setend", "direct", "fieldless", "generic", "lendata"];
pub const C13: Check = Check {
    id: "C13",
    pool: |w| vec![pool(w, |s, _| T.contains(&s.tag)), pool(w, |s, _| s.tag == "setend" || s.all_attrs().iter().any(|a| matches!(a, At::SetEndian(_) | At::Be | At::Le))), pool(w, |_, _| true)],
    run,
    quick: 2_000_000,
    rule: "one evaluation is one connection carrying 1-4 records, read through any entry point while the session's byte order and values change between attempts, with partial attempts in between; values and the log of byte-order queries are compared with the declared precedence; non-trivial when a multi-byte value was read; distinct by (declaration, entry point, session byte orders, outcome)",
    real: REAL,
    stub: "peer, session state, entry-point selection; the reference interpreter is the oracle",
    no_alloc: true,
    probes: &["runtime-order-asked", "order-changed-between-attempts", "little", "big", "success", "plain-entry"],
};

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let pool = &pools[if k == 9 { 2 } else if k >= 5 { 1 } else { 0 }];
    let mut c = r.case(pool);
    let recs = 1 + r.t.below(4);
    let mut sched = 0;
    for n in 0..recs {
        if n > 0 {
            match r.t.below(4) {
                0 => { for e in 0..8 { if r.t.pct(50) { c.env[e] ^= 1; } } r.st.probe("order-changed-between-attempts"); r.st.fault("byte-order-switched"); }
                1 => c.fl = *r.t.pick(&[Fl::No, Fl::Be, Fl::Le]),
                2 => { if let Some((_, ArgTy::Endian)) = r.w.cat.v[c.id].args.first() { c.args[0] ^= 1; r.st.fault("byte-order-switched"); } }
                _ => { let id = *r.t.pick(pool); c = r.case_for(id); }
            }
        }
        let (mut d, _) = r.record(&c, 0);
        if r.t.pct(10) { let s = r.t.seed(); let mut g = crate::rng::Rng::new(s); for b in d.iter_mut() { if g.pct(30) { *b = g.next() as u8; } } r.st.fault("noise"); }
        let s = r.lazy(&c);
        r.st.say(|| format!("record {} for {}", hex(&d), s));
        // a partial attempt before the whole record is there, under another byte order
        let cuts = if r.t.pct(25) && !d.is_empty() { vec![r.t.below(d.len()), d.len()] } else { vec![d.len()] };
        for (q, cut) in cuts.iter().enumerate() {
            let mut cc = c.clone();
            if q == 0 && cuts.len() == 2 { for e in 0..8 { if r.t.pct(40) { cc.env[e] ^= 1; } } }
            let plan = cc.plan();
            let x = &d[..*cut];
            let m = model(r.w, &cc, x, &plan);
            if m.overrun { return Ok(()); }
            let o = r.exec(&cc, x, &plan);
            r.st.ticks += 1;
            r.st.say(|| format!("{:?} {} bytes: real {} log {:?}, declared {} log {:?}", cc.fl, cut, o.out.short(), o.events, m.out.short(), m.events));
            let asked = o.events.iter().filter(|e| e.k == 'E').count();
            if asked > 0 { r.st.probe("runtime-order-asked"); }
            match cc.fl { Fl::No => r.st.probe("plain-entry"), Fl::Be => r.st.probe("big"), Fl::Le => r.st.probe("little") }
            if let Out::Ok { .. } = o.out { r.st.probe("success"); }
            let orders = cc.env.iter().fold(0u64, |a, b| a * 2 + (*b as u64 & 1));
            r.st.state(&[cc.id as u64, cc.fl as u64, orders, o.out.class() as u64]);
            sched = crate::rng::hash(&[sched, cc.id as u64, orders, *cut as u64]);
            if !agree(&o.out, &m.out) {
                return bad("byte-order", format!("{} read via {:?} with session {:?} gives {}, the declaration says {}; {}", hex(x), cc.fl, cc.env, o.out.short(), m.out.short(), r.describe(&cc)));
            }
            let a: Vec<_> = o.events.iter().filter(|e| e.k == 'E').collect();
            let b: Vec<_> = m.events.iter().filter(|e| e.k == 'E').collect();
            if a != b {
                return bad("order-queries", format!("{} read via {:?}: session values asked for {:?}, the declaration says {:?}; {}", hex(x), cc.fl, a, b, r.describe(&cc)));
            }
        }
    }
    r.st.schedules.insert(sched);
    Ok(())
}
