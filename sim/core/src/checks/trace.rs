//! C20: an operator reads the trace of a declaration with `Debug`.
use super::*;
use crate::exec::*;
use crate::model::Stop;
use crate::schema::*;
use crate::tap::tap;

pub const C20: Check = Check {
    id: "C20",
    pool: |w| {
        let own = |s: &Schema| s.debug || s.all_attrs().iter().any(|a| matches!(a, At::Debug));
        vec![pool(w, |_, i| w.cat.any_schema(i, &own)), pool(w, |s, _| s.tag == "trace"), pool(w, |_, i| w.cat.any_schema(i, &own) && w.cat.sch_any_ty(&w.cat.v[i], &|t| matches!(t, Ty::Tok | Ty::Mini | Ty::Ref(_))))]
    },
    run,
    quick: 1_000_000,
    rule: "one evaluation is one stream attempted as it grows by a declaration with traced fields, cut, damaged or struck by faults of nested parsers, with everything it prints collected; non-trivial when a traced field failed; distinct by (declaration, bytes there, outcome, reports)",
    real: REAL,
    stub: "channel, nested parsers, standard output and error (collected)",
    no_alloc: false,
    probes: &["silent-success", "one-report", "many-reports", "absorbed-failure-reported", "request-reported", "error-reported", "failure-reported", "failure-of-untraced-field"],
};

struct Report { name: String, head: String, dump: Vec<u8> }

/// reports of nom's tracer: a line `name: message`, then lines of the dump
fn parse(text: &str) -> Vec<Report> {
    let mut l: Vec<Report> = vec![];
    for line in text.lines() {
        let b = line.as_bytes();
        if b.len() > 8 && b[8] == b'\t' && b[..8].iter().all(|c| c.is_ascii_hexdigit()) {
            if let (Some(r), Some(h)) = (l.last_mut(), line[9..].split('\t').next()) { for x in h.split_whitespace() { r.dump.push(u8::from_str_radix(x, 16).unwrap_or(0)); } }
        } else if let Some((n, m)) = line.split_once(": ") {
            if l.is_empty() || n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'#') { l.push(Report { name: n.trim_start_matches("r#").into(), head: m.into(), dump: vec![] }); }
        }
    }
    l
}

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let c = r.case(&pools[if k >= 7 { 2 } else if k >= 3 { 1 } else { 0 }]);
    let b = *r.t.pick(&[0usize, 0, 10, 30]);
    let (mut d, _) = r.record(&c, b);
    if d.len() > 3000 { d.truncate(3000); }
    match r.t.below(8) { 5 | 6 => { let n = r.t.below(d.len() + 1); d.truncate(n); r.st.fault("stream-cut"); } 7 => r.damage(&mut d), _ => {} }
    let s = r.lazy(&c);
    r.st.say(|| format!("stream {} for {}", hex(&d), s));
    let steps = 1 + r.t.below(3);
    for n in 0..steps {
        let have = if n + 1 == steps { d.len() } else { r.t.below(d.len() + 1) };
        let x = &d[..have];
        let mut plan = c.plan();
        let m = model(r.w, &c, x, &plan);
        if m.overrun || m.traces.len() > 200 { r.st.count("skipped-too-long"); return Ok(()); }
        if m.calls > 0 && r.t.pct(50) {
            let n = r.t.below(m.calls as usize) as u32;
            let f = r.fault();
            plan.faults.push((n, f));
            if r.t.pct(25) { let q = n + 1 + r.t.below(6) as u32; let f = r.fault(); plan.faults.push((q, f)); }
        }
        let m = model(r.w, &c, x, &plan);
        if m.overrun || m.traces.len() > 200 { r.st.count("skipped-too-long"); return Ok(()); }
        let (o, text) = tap(|| exec(r.w, &c, x, &plan));
        r.st.see_obs(&o);
        r.note(&o);
        r.st.ticks += 1;
        let text = String::from_utf8_lossy(&text).into_owned();
        r.st.see(str_hash(&text));
        r.st.say(|| format!("{} bytes, faults {:?}: {}; printed {:?}", have, plan.faults, o.out.short(), text));
        if !agree(&o.out, &m.out) || o.events != m.events { return bad("outcome", format!("on {} (faults {:?}) gives {}, its declaration says {}; {}", hex(x), plan.faults, o.out.short(), m.out.short(), r.describe(&c))); }
        let got = parse(&text);
        r.st.state(&[c.id as u64, have as u64, o.out.class() as u64, got.len() as u64, plan.faults.first().map_or(0, |f| f.0 as u64 + 1)]);
        let want = &m.traces;
        if got.len() != want.len() {
            return bad("reports", format!("on {} (faults {:?}), outcome {}: {} reports for {:?} instead of {} for {:?}; {}", hex(x), plan.faults, o.out.short(), got.len(), got.iter().map(|g| &g.name).collect::<Vec<_>>(), want.len(), want, r.describe(&c)));
        }
        for (g, (name, p, end, stop)) in got.iter().zip(want) {
            let (class, code) = match stop { Stop::Inc(_) => ("Incomplete(", String::new()), Stop::Err(_, k) => ("Error(Error(", format!("code: {:?}", k)), Stop::Fail(_, k) => ("Error(Failure(", format!("code: {:?}", k)), Stop::Panic => continue };
            if g.name != name.trim_start_matches("r#") { return bad("name", format!("on {} (faults {:?}) the report names {}, the field that failed is {}; {}", hex(x), plan.faults, g.name, name, r.describe(&c))); }
            if !g.head.contains(class) || !g.head.contains(&code) { return bad("error", format!("on {} (faults {:?}) field {} fails with {:?}, the report says {}; {}", hex(x), plan.faults, name, stop, g.head, r.describe(&c))); }
            let e = (*end).min(x.len());
            if g.dump != x[*p..e] { return bad("input", format!("on {} (faults {:?}) field {} was given bytes {} to {}, the report shows {}; {}", hex(x), plan.faults, name, p, e, hex(&g.dump), r.describe(&c))); }
            r.st.probe(match stop { Stop::Inc(_) => "request-reported", Stop::Err(..) => "error-reported", _ => "failure-reported" });
        }
        match (want.len(), o.out.class()) {
            (0, 'o') => r.st.probe("silent-success"),
            (0, _) => r.st.probe("failure-of-untraced-field"),
            (n, cl) => { r.st.probe(if n == 1 { "one-report" } else { "many-reports" }); if cl == 'o' { r.st.probe("absorbed-failure-reported"); } }
        }
    }
    Ok(())
}
