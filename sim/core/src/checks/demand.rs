//! C02: a reader that blocks until exactly the requested number of bytes has arrived, from a peer
//! that sends one record and then waits for the reply.
use super::*;
use crate::catalog::open_ended;
use crate::rt::Out;

pub const C02: Check = Check {
    id: "C02",
    pool: |w| vec![pool(w, |_, i| !open_ended(&w.cat, i)), pool(w, |s, i| !open_ended(&w.cat, i) && s.tag.contains("pos")), pool(w, |s, i| !open_ended(&w.cat, i) && s.tag.contains("large"))],
    run,
    quick: 300_000,
    rule: "one evaluation is one record sent in a request-reply conversation: the reader waits for exactly the bytes it was told to wait for, from every starting cut the seed chooses; non-trivial when at least one request names a number of bytes; distinct by (declaration, bytes there, bytes requested)",
    real: REAL,
    stub: "peer, stream, blocking reader",
    no_alloc: true,
    probes: &["sized-request", "multi-byte-request", "request-over-256", "paused-inside-record"],
};

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let k = r.t.below(10);
    let c = r.case(&pools[if k == 9 { 2 } else if k >= 6 { 1 } else { 0 }]);
    let (d, val) = match super::link::streamed(r, &c) { Some(x) => x, None => { r.st.count("runs-without-record"); return Ok(()); } };
    let s = r.lazy(&c);
    r.st.say(|| format!("record {} for {}", hex(&d), s));
    let plan = c.plan();
    // every cut of a small record is visited; a few of a large one
    let cuts: Vec<usize> = if d.len() <= 24 && r.t.pct(30) { (0..d.len()).collect() } else { let mut v = vec![0]; for _ in 0..3 { v.push(r.t.below(d.len())); } v };
    let mut sched = 0;
    for cut in cuts {
        let mut have = cut;
        let mut rounds = 0;
        let (mut since, mut jumps) = (0, 0);
        if cut > 0 { r.st.probe("paused-inside-record"); r.st.fault("stream-paused"); }
        if r.t.pct(10) { r.st.fault("reader-restart"); let o = r.exec(&c, &d[..have], &plan); r.st.say(|| format!("restart, {} bytes: {}", have, o.out.short())); }
        loop {
            let o = r.exec(&c, &d[..have], &plan);
            r.st.ticks += 1;
            sched = crate::rng::hash(&[sched, have as u64]);
            r.st.say(|| format!("{} of {} bytes: {}", have, d.len(), o.out.short()));
            rounds += 1;
            match o.out {
                Out::Inc(None) => { r.st.count("unsized-request"); have += 1; if have > d.len() { return bad("asks-beyond-record", format!("all {} bytes of record {} are there and more input is requested; {}", d.len(), hex(&d), r.describe(&c))); } }
                Out::Inc(Some(n)) => {
                    r.st.probe("sized-request");
                    if n > 1 { r.st.probe("multi-byte-request"); }
                    if n > 256 { r.st.probe("request-over-256"); }
                    r.st.state(&[c.id as u64, have as u64, n as u64]);
                    if n == 0 || n > d.len() - have {
                        return bad("asks-beyond-record", format!("with {} of {} bytes of record {} there, {} more bytes are requested but the peer has only {} left: the conversation stalls; {}", have, d.len(), hex(&d), n, d.len() - have, r.describe(&c)));
                    }
                    // one byte less must not have been enough
                    if n > 1 {
                        let fewer = have + n - 1;
                        let fewer = if r.t.pct(30) { have + 1 + r.t.below(n - 1) } else { fewer };
                        let o2 = r.exec(&c, &d[..fewer], &plan);
                        if !matches!(o2.out, Out::Inc(_)) {
                            return bad("asks-too-much", format!("with {} bytes of record {} there, {} more are requested, but {} more already give {}; {}", have, hex(&d), n, fewer - have, o2.out.short(), r.describe(&c)));
                        }
                    }
                    // a peer that is slower than asked, or the exact amount
                    if r.t.pct(20) { let m = 1 + r.t.below(n); r.st.fault("short-delivery"); have += m; } else { have += n; }
                }
                Out::Ok { val: v, off, len } => {
                    if have == d.len() && off as usize == d.len() && len == 0 && v.unplaced() == val.unplaced() { break; }
                    return bad("wrong-end", format!("with {} of {} bytes of {} there the parse ended with {:?} consuming {}; {}", have, d.len(), hex(&d), v, off, r.describe(&c)));
                }
                x => return bad("wrong-end", format!("with {} of {} bytes of {} there the parse ended with {}; {}", have, d.len(), hex(&d), x.short(), r.describe(&c))),
            }
            // a record requested byte by byte: later parts of a long one are reached by larger deliveries
            since += 1;
            if since > (200_000 / (d.len() + 1)).max(7) && have < d.len() {
                since = 0;
                jumps += 1;
                have = if jumps > 2 { d.len() - r.t.below((d.len() - have).min(4)) } else { have + r.t.below(d.len() - have) };
                r.st.count("larger-deliveries");
            }
            if rounds > d.len() + 2 { return bad("asks-beyond-record", format!("no end after {} rounds for a record of {} bytes", rounds, d.len())); }
        }
    }
    r.st.schedules.insert(sched);
    Ok(())
}
