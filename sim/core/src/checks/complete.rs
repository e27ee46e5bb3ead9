//! C05: the file ends at any byte (a crashed writer); complete parsers answer with an error.
use super::*;
use crate::exec::*;
use crate::rt::Out;
use crate::schema::*;

pub const C05: Check = Check {
    id: "C05",
    pool: |w| vec![pool(w, |s, _| matches!(s.twin, Some((_, Twin::Complete)))), pool(w, |s, _| matches!(s.twin, Some((_, Twin::FieldComplete)))), pool(w, |s, i| s.twin.is_none() && has_complete(w, i))],
    run,
    quick: 1_200_000,
    rule: "one evaluation is one record of a declaration marked complete, written to a file that ends at each byte in turn (sampled when long), compared with the same declaration without completeness; non-trivial when at least one cut was made; distinct by (declaration, cut, outcome)",
    real: REAL,
    stub: "file, writer that crashes; the reference interpreter and the streaming twin are the oracles",
    no_alloc: true,
    probes: &["cut", "whole-type", "one-field", "field-cut-outside", "field-cut-inside"],
};
fn has_complete(w: &World, i: Id) -> bool { w.cat.v[i].all_attrs().iter().any(|a| matches!(a, At::Complete)) || w.cat.v[i].complete }

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let c = r.case(&pools[if k == 9 { 2 } else if k >= 6 { 1 } else { 0 }]);
    let bad_ = *r.t.pick(&[0usize, 10]);
    let (d, _) = r.record(&c, bad_);
    let s = r.lazy(&c);
    r.st.say(|| format!("record {} for {}", hex(&d), s));
    let plan = c.plan();
    let sch = &r.w.cat.v[c.id];
    let whole = sch.complete;
    let base = sch.twin.map(|x| x.0);
    r.st.probe(if whole { "whole-type" } else { "one-field" });
    let cuts: Vec<usize> = if d.len() <= 40 { (0..=d.len()).rev().collect() } else { let mut v = vec![d.len(), 0]; for _ in 0..20 { v.push(r.t.below(d.len())); } v };
    for cut in cuts {
        let x = &d[..cut];
        let o = r.exec(&c, x, &plan);
        r.st.ticks += 1;
        r.st.state(&[c.id as u64, cut as u64, o.out.class() as u64]);
        if cut < d.len() { r.st.probe("cut"); r.st.fault("file-ends-early"); }
        r.st.say(|| format!("{} of {} bytes: {}", cut, d.len(), o.out.short()));
        if whole { if let Out::Inc(_) = o.out {
            return bad("complete-asks", format!("declared complete, {} of {} bytes of {}: {}; {}", cut, d.len(), hex(&d), o.out.short(), r.describe(&c)));
        } }
        if let Some(b) = base {
            let cb = Case { id: b, ..c.clone() };
            let ob = r.exec(&cb, x, &plan);
            match &ob.out {
                Out::Ok { .. } | Out::Fail(..) | Out::Panic(_) if o.out != ob.out => return bad("differs-from-streaming", format!("on {} the declaration without completeness gives {}, with it {}; {}", hex(x), ob.out.short(), o.out.short(), r.describe(&c))),
                Out::Err(p, k2) if !has_inc_inside(r, c.id) && o.out != Out::Err(*p, *k2) => return bad("differs-from-streaming", format!("on {} the declaration without completeness gives {}, with it {}; {}", hex(x), ob.out.short(), o.out.short(), r.describe(&c))),
                Out::Inc(_) if whole && !matches!(o.out, Out::Err(..)) => return bad("complete-not-error", format!("on {} the declaration without completeness gives {}, with it {} instead of an error; {}", hex(x), ob.out.short(), o.out.short(), r.describe(&c))),
                Out::Inc(_) if !whole => {
                    let m = model(r.w, &c, x, &plan);
                    r.st.probe(if m.out.class() == 'i' { "field-cut-outside" } else { "field-cut-inside" });
                    if !m.overrun && m.out.class() != o.out.class() { return bad("field-complete", format!("on {} expected {}, got {}; {}", hex(x), m.out.short(), o.out.short(), r.describe(&c))); }
                }
                _ => {}
            }
        } else {
            let m = model(r.w, &c, x, &plan);
            if !m.overrun && !agree(&o.out, &m.out) { return bad("field-complete", format!("on {} expected {}, got {}; {}", hex(x), m.out.short(), o.out.short(), r.describe(&c))); }
        }
    }
    Ok(())
}
/// an absorbing position inside may see an error where the streaming twin sees a request
fn has_inc_inside(_r: &Run, _id: Id) -> bool { false }
