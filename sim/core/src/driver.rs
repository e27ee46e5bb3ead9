//! Command line, worker processes, minimisation, replay files, evidence.
use crate::checks::{self, Check};
use crate::engine::*;
use crate::exec::*;
use crate::rng::hash;
use crate::schema::Id;
use crate::tape::Tape;
use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

pub fn run_seed(vseed: u64, id: &str, idx: u64) -> u64 { hash(&[vseed, str_hash(id), idx]) }

/// one run; a panic of the simulator itself is an error of the check, not a violation
fn once(w: &World, c: &Check, pools: &[Vec<Id>], tape: &mut Tape, st: &mut Stats) -> Verdict {
    let r = catch_unwind(AssertUnwindSafe(|| (c.run)(&mut Run { w, t: tape, st, huge: !matches!(c.id, "C01" | "C02") }, pools)));
    match r {
        Ok(v) => { if let Err(b) = &v { st.see(str_hash(&b.class)); } v }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            bad("harness", format!("the simulator panicked: {}", m))
        }
    }
}

// ---------------------------------------------------------------- worker

fn worker(w: &World, a: &[String]) {
    let c = checks::get(&a[0]).expect("check");
    let (vseed, start, step, end) = (num(&a[1]), num(&a[2]), num(&a[3]), num(&a[4]));
    let progress = std::fs::OpenOptions::new().read(true).write(true).open(&a[5]).expect("progress");
    let pools = checks::pools(&c, w);
    let mut tot = Stats::default();
    let mut n = 0u64;
    let mut verdict: Option<(u64, Bad, Vec<u32>)> = None;
    let mut odd: Vec<u64> = vec![];
    let mut digests: Vec<u64> = vec![];
    let keep = c.id == "C16" || a.len() > 7;
    // runs to be repeated in a fresh process: the last ones, and those that look odd
    let mut recent: std::collections::VecDeque<(u64, Vec<u32>, u64)> = Default::default();
    let mut suspects = 0;
    let mut idx = start;
    while idx < end {
        progress.write_at(&idx.to_le_bytes(), 0).unwrap();
        let mut stop = [0u8; 8];
        progress.read_at(&mut stop, 8).unwrap();
        if idx >= u64::from_le_bytes(stop) { break; }
        let mut tape = Tape::seeded(run_seed(vseed, c.id, idx));
        let mut st = Stats::default();
        if n == 0 || n == 7 { st.tracing = true; }
        let v = once(w, &c, &pools, &mut tape, &mut st);
        n += 1;
        if st.tracing && tot.samples.len() < 2 { tot.samples.push(format!("run {}: {}", idx, st.trace.iter().take(6).cloned().collect::<Vec<_>>().join(" / "))); }
        if keep { digests.push(st.digest); }
        if let Err(b) = v { merge(&mut tot, st); verdict = Some((idx, b, tape.log)); break; }
        if c.id == "C12" {
            let odd = st.counts.contains_key("suspect");
            if odd { suspects += 1; }
            if odd && suspects <= 8 { recent.push_front((idx, tape.log.clone(), st.digest)); } else { recent.push_back((idx, tape.log.clone(), st.digest)); }
            if recent.len() > 24 + suspects.min(8) { let k = suspects.min(8); recent.remove(k); }
        }
        if hash(&[vseed, idx]) % 50 == 0 {
            // the same tape again: everything observed must repeat
            let mut t2 = Tape::replay(tape.log.clone());
            let mut s2 = Stats::default();
            let v2 = once(w, &c, &pools, &mut t2, &mut s2);
            tot.count("self-replays");
            if s2.digest != st.digest || v2.is_err() {
                odd.push(idx);
                if c.id == "C12" || c.id == "C11" {
                    let b = Bad { class: "not-repeatable".into(), msg: format!("run {} repeated with the same choices in the same process behaved differently: {}", idx, v2.err().map(|b| b.msg).unwrap_or_default()) };
                    merge(&mut tot, st);
                    verdict = Some((idx, b, tape.log));
                    break;
                }
            }
        }
        merge(&mut tot, st);
        idx += step;
    }
    if verdict.is_none() && !recent.is_empty() {
        let exe = std::env::current_exe().unwrap();
        let dir = PathBuf::from(format!("{}.d", a[6]));
        std::fs::create_dir_all(&dir).unwrap();
        for (i, tape, digest) in recent {
            progress.write_at(&i.to_le_bytes(), 0).unwrap();
            let x = try_in(&exe, &dir, &Replay { check: c.id.into(), catalog: w.catalog_seed, tape: tape.clone(), class: "history".into(), ..Replay::default() }, false, 30);
            tot.count("runs-compared-with-a-fresh-process");
            if x.digest != digest && verdict.as_ref().map_or(true, |v| i < v.0) {
                verdict = Some((i, Bad { class: "history".into(), msg: format!("run {} behaves differently in a fresh process ({} {}) and after {} earlier runs of the process", i, x.class, x.msg, n) }, tape));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    let mut o: Vec<u8> = vec![];
    let put = |o: &mut Vec<u8>, s: &str| { o.extend_from_slice(&(s.len() as u32).to_le_bytes()); o.extend_from_slice(s.as_bytes()); };
    let put8 = |o: &mut Vec<u8>, x: u64| o.extend_from_slice(&x.to_le_bytes());
    for x in [n, tot.parses, tot.ticks] { put8(&mut o, x); }
    put8(&mut o, tot.counts.len() as u64);
    for (k, v) in &tot.counts { put(&mut o, k); put8(&mut o, *v); }
    for s in [&tot.states, &tot.schedules] { put8(&mut o, s.len() as u64); let mut l: Vec<u64> = s.iter().copied().collect(); l.sort(); for x in l { put8(&mut o, x); } }
    put8(&mut o, tot.samples.len() as u64);
    for s in &tot.samples { put(&mut o, s); }
    for l in [&odd, &digests] { put8(&mut o, l.len() as u64); for x in l.iter() { put8(&mut o, *x); } }
    match verdict {
        None => put8(&mut o, 0),
        Some((i, b, t)) => { put8(&mut o, 1); put8(&mut o, i); put(&mut o, &b.class); put(&mut o, &b.msg); put8(&mut o, t.len() as u64); for x in t { put8(&mut o, x as u64); } }
    }
    std::fs::write(&a[6], o).unwrap();
}

fn merge(t: &mut Stats, s: Stats) {
    for (k, v) in s.counts { t.add(&k, v); }
    t.states.extend(s.states);
    t.schedules.extend(s.schedules);
    t.parses += s.parses;
    t.ticks += s.ticks;
}

#[derive(Default)]
struct Part { n: u64, st: Stats, odd: Vec<u64>, digests: Vec<u64>, verdict: Option<(u64, Bad, Vec<u32>)> }

fn load(p: &Path) -> Option<Part> {
    let d = std::fs::read(p).ok()?;
    let mut at = 0usize;
    fn n8(d: &[u8], at: &mut usize) -> Option<u64> { let x = d.get(*at..*at + 8)?; *at += 8; Some(u64::from_le_bytes(x.try_into().unwrap())) }
    fn st(d: &[u8], at: &mut usize) -> Option<String> { let x = d.get(*at..*at + 4)?; *at += 4; let n = u32::from_le_bytes(x.try_into().unwrap()) as usize; let s = d.get(*at..*at + n)?; *at += n; Some(String::from_utf8_lossy(s).into_owned()) }
    let mut r = Part { n: n8(&d, &mut at)?, ..Part::default() };
    r.st.parses = n8(&d, &mut at)?;
    r.st.ticks = n8(&d, &mut at)?;
    for _ in 0..n8(&d, &mut at)? { let k = st(&d, &mut at)?; let v = n8(&d, &mut at)?; r.st.counts.insert(k, v); }
    for _ in 0..n8(&d, &mut at)? { r.st.states.insert(n8(&d, &mut at)?); }
    for _ in 0..n8(&d, &mut at)? { r.st.schedules.insert(n8(&d, &mut at)?); }
    for _ in 0..n8(&d, &mut at)? { r.st.samples.push(st(&d, &mut at)?); }
    for _ in 0..n8(&d, &mut at)? { r.odd.push(n8(&d, &mut at)?); }
    for _ in 0..n8(&d, &mut at)? { r.digests.push(n8(&d, &mut at)?); }
    if n8(&d, &mut at)? == 1 {
        let i = n8(&d, &mut at)?;
        let b = Bad { class: st(&d, &mut at)?, msg: st(&d, &mut at)? };
        let mut t = vec![];
        for _ in 0..n8(&d, &mut at)? { t.push(n8(&d, &mut at)? as u32); }
        r.verdict = Some((i, b, t));
    }
    Some(r)
}

// ---------------------------------------------------------------- replay files

const UNTRACEABLE: &str = "does-not-compile";

#[derive(Clone, Default)]
struct Replay {
    check: String,
    /// the build it was found in, when not the full one
    build: String,
    catalog: u64,
    tape: Vec<u32>,
    class: String,
    msg: String,
    /// runs that must precede in the same process: seed, first index, step, index of the run itself
    prelude: Option<(u64, u64, u64, u64)>,
    note: String,
    trace: Vec<String>,
}

fn write_replay(p: &Path, r: &Replay) {
    let mut s = String::new();
    s.push_str("# nom-derive simulation replay; run: /verif/replay.sh <this file>\n");
    s.push_str(&format!("check {}\ncatalog {}\nclass {}\n", r.check, r.catalog, r.class));
    if !r.build.is_empty() { s.push_str(&format!("build {}\n", r.build)); }
    if let Some((a, b, c, d)) = r.prelude { s.push_str(&format!("prelude {} {} {} {}\n", a, b, c, d)); }
    s.push_str(&format!("tape {}\n", r.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    s.push_str(&format!("message {}\n", r.msg.replace('\n', " | ")));
    if !r.note.is_empty() { s.push_str(&format!("note {}\n", r.note)); }
    for l in &r.trace { for l in l.lines() { s.push_str(&format!("# {}\n", l)); } }
    let _ = std::fs::write(p, s);
}

fn read_replay(p: &str) -> Option<Replay> {
    let s = std::fs::read_to_string(p).ok()?;
    let mut r = Replay::default();
    for l in s.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "check" => r.check = v.into(),
            "build" => r.build = v.into(),
            "catalog" => r.catalog = v.parse().ok()?,
            "class" => r.class = v.into(),
            "message" => r.msg = v.into(),
            "tape" => r.tape = v.split_whitespace().map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?,
            "prelude" => { let x: Vec<u64> = v.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect(); if x.len() == 4 { r.prelude = Some((x[0], x[1], x[2], x[3])); } }
            _ => {}
        }
    }
    Some(r)
}

/// runs a replay file; writes "class\ndigest\nmsg\ntrace.."
fn try_file(w: &World, p: &str, out: &str, tracing: bool) {
    let r = read_replay(p).expect("replay file");
    let c = checks::get(&r.check).expect("check");
    let pools = checks::pools(&c, w);
    if let Some((vs, a, step, last)) = r.prelude {
        let mut i = a;
        while i < last { let mut t = Tape::seeded(run_seed(vs, c.id, i)); let mut s = Stats::default(); let _ = once(w, &c, &pools, &mut t, &mut s); i += step; }
    }
    let mut t = Tape::replay(r.tape.clone());
    let mut st = Stats { tracing, ..Stats::default() };
    let mut v = once(w, &c, &pools, &mut t, &mut st);
    if v.is_ok() && r.class != "history" && (r.class == "not-repeatable" || c.id == "C12") {
        let mut t2 = Tape::replay(t.log.clone());
        let mut s2 = Stats::default();
        let v2 = once(w, &c, &pools, &mut t2, &mut s2);
        if s2.digest != st.digest || v2.is_err() { v = bad("not-repeatable", "the same choices in the same process gave another outcome".into()); }
    }
    let mut s = match v { Ok(()) => format!("ok\n{}\n\n", st.digest), Err(b) => format!("{}\n{}\n{}\n", b.class, st.digest, b.msg.replace('\n', " | ")) };
    s.push_str(&format!("{}\n", t.log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    for l in &st.trace { s.push_str(l); s.push('\n'); }
    std::fs::write(out, s).unwrap();
}

#[derive(Debug, Clone, Default)]
struct Tried { class: String, digest: u64, msg: String, used: Vec<u32>, trace: Vec<String> }

/// runs a tape in a fresh process of one build
fn try_in(exe: &Path, dir: &Path, r: &Replay, tracing: bool, limit: u64) -> Tried {
    let f = dir.join("try.replay");
    let o = dir.join("try.out");
    write_replay(&f, r);
    let _ = std::fs::remove_file(&o);
    let mut ch = Command::new(exe).arg("try").arg(&f).arg(&o).arg(if tracing { "1" } else { "0" }).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            if !s.success() { return Tried { class: "crash".into(), msg: format!("the process was ended: {}", s), ..Tried::default() }; }
            break;
        }
        if t0.elapsed() > Duration::from_secs(limit) { let _ = ch.kill(); let _ = ch.wait(); return Tried { class: "hang".into(), msg: "no end".into(), ..Tried::default() }; }
        std::thread::sleep(Duration::from_micros(300));
    }
    let s = std::fs::read_to_string(&o).unwrap_or_default();
    let mut l = s.lines();
    let class = l.next().unwrap_or("ok").to_string();
    let digest = l.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let msg = l.next().unwrap_or("").to_string();
    let used = l.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    Tried { class, digest, msg, used, trace: l.map(|x| x.to_string()).collect() }
}

/// in all builds for C16, else in this one
fn try_all(exes: &[PathBuf], dir: &Path, r: &Replay, tracing: bool, limit: u64) -> Tried {
    let mut a = try_in(&exes[0], dir, r, tracing, limit);
    if r.class == "history" && a.class == "ok" {
        // what came before must not matter
        if r.prelude.is_none() { return a; }
        let b = try_in(&exes[0], dir, &Replay { prelude: None, ..r.clone() }, tracing, limit);
        if a.digest != b.digest {
            a.class = "history".into();
            a.msg = "the same parses give another outcome after the earlier parses of the prelude than in a fresh process".into();
            a.trace.push("--- the same in a fresh process".into());
            a.trace.extend(b.trace);
        }
        return a;
    }
    if r.check == "C16" && a.class == "ok" {
        for (n, e) in exes.iter().enumerate().skip(1) {
            let b = try_in(e, dir, r, tracing, limit);
            if b.class != "ok" { return b; }
            if b.digest != 0 && a.digest != b.digest {
                a.class = "builds-differ".into();
                a.msg = format!("the build with std and the build {} do not behave the same", ["", "with alloc only", "without alloc"][n]);
                a.trace.push("--- the other build".into());
                a.trace.extend(b.trace);
                let d: Vec<String> = a.trace.iter().filter(|l| l.contains("bytes:")).cloned().collect();
                a.msg.push_str(&format!(": {}", d.join(" | ")));
                return a;
            }
        }
    }
    a
}

fn minimise(exes: &[PathBuf], dir: &Path, r: &mut Replay, budget: Duration) -> (usize, bool) {
    let t0 = Instant::now();
    let limit = if r.class == "hang" { 5 } else { 30 };
    let base = try_all(exes, dir, r, false, limit);
    if base.class != r.class { return (1, false); }
    let mut tries = 1;
    let mut t = r.tape.clone();
    let ok = |t: &[u32], tries: &mut usize| -> Option<Vec<u32>> {
        if *tries > 1500 || t0.elapsed() > budget { return None; }
        *tries += 1;
        let q = Replay { tape: t.to_vec(), ..r.clone() };
        let x = try_all(exes, dir, &q, false, limit);
        if x.class == q.class { Some(if x.used.is_empty() || x.used.len() > t.len() { t.to_vec() } else { x.used }) } else { None }
    };
    loop {
        let before = (t.len(), t.iter().map(|x| *x as u64).sum::<u64>());
        // cut the end
        let mut k = t.len() / 2;
        while k > 0 { if let Some(u) = ok(&t[..t.len() - k], &mut tries) { t = u; k = k.min(t.len() / 2); } else { k /= 2; } }
        // drop blocks
        for b in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + b <= t.len() {
                let mut u = t.clone();
                u.drain(i..i + b);
                if let Some(u) = ok(&u, &mut tries) { t = u; } else { i += b; }
            }
        }
        // smaller choices
        let mut i = 0;
        while i < t.len() {
            for v in [0, 1, t[i] / 2, t[i].saturating_sub(1)] {
                if i < t.len() && v < t[i] { let mut u = t.clone(); u[i] = v; if let Some(u) = ok(&u, &mut tries) { t = u; break; } }
            }
            i += 1;
        }
        if (t.len(), t.iter().map(|x| *x as u64).sum::<u64>()) >= before || tries > 1500 || t0.elapsed() > budget { break; }
    }
    while t.last() == Some(&0) { t.pop(); }
    r.tape = t;
    (tries, true)
}

// ---------------------------------------------------------------- parent

fn num(s: &str) -> u64 { s.parse().unwrap_or_else(|_| panic!("number expected: {}", s)) }
fn env_num(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d) }

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

struct Found { build: usize, idx: u64, bad: Bad, tape: Option<Vec<u32>>, start: u64, step: u64 }

fn parent(w: &World, id: &str) -> i32 {
    let c = match checks::get(id) { Some(c) => c, None => { eprintln!("no check {}", id); return 2; } };
    let t0 = Instant::now();
    let vseed = env_num("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let runs = env_num("ND_RUNS", if thorough { c.quick * 6 } else { c.quick });
    let cap = Duration::from_secs(env_num("ND_CAP", if thorough { 1500 } else { 300 }));
    let root = PathBuf::from(std::env::var("ND_ROOT").unwrap_or("/verif".into()));
    let dir = std::env::temp_dir().join(format!("ndsim-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let me = std::env::current_exe().unwrap();
    let mut exes = vec![me];
    if id == "C16" {
        for k in ["ND_ALLOC_BIN", "ND_NOALLOC_BIN"] {
            match std::env::var(k) { Ok(p) if Path::new(&p).exists() => exes.push(p.into()), _ => { eprintln!("{} not set", k); return 2; } }
        }
    }
    if id != "C16" {
        // a share of the runs in the build without allocation, where the declarations exist there
        if let Ok(p) = std::env::var("ND_NOALLOC_BIN") { if c.no_alloc && Path::new(&p).exists() { exes.push(p.into()); } }
    }
    println!("check {} seed {} catalogue {} runs {}", id, vseed, w.catalog_seed, runs);
    if id == "C20" {
        if let Some(n) = w.untraceable.first() {
            // no run can start: the declaration is there, its trace is not
            let text = crate::emit::decl(&w.cat, *n, &mut crate::emit::Aliases::default());
            let r = Replay { check: id.into(), catalog: w.catalog_seed, class: UNTRACEABLE.into(), msg: format!("declaration {} does not compile with Debug, without it it does", n), trace: text.lines().map(|l| l.to_string()).collect(), ..Replay::default() };
            let rd = root.join("replays");
            std::fs::create_dir_all(&rd).unwrap();
            let p = rd.join(format!("{}-{}-untraceable.replay", id, vseed));
            write_replay(&p, &r);
            println!("{}: {}", r.class, r.msg);
            println!("VIOLATION property={} replay={}", id, p.display());
            evidence(&root, &c, w, vseed, thorough, runs, 0, &Part::default(), t0.elapsed().as_secs_f64(), 1, false, &[w.catalog_seed.to_string()]);
            let _ = std::fs::remove_dir_all(&dir);
            return 1;
        }
    }
    let procs = env_num("ND_WORKERS", std::thread::available_parallelism().map_or(4, |x| x.get() as u64)).max(1);

    let mut total = Part::default();
    let mut found: Option<Found> = None;
    let mut all_digests: Vec<BTreeMap<u64, u64>> = vec![];
    let mut capped = false;
    for (b, exe) in exes.iter().enumerate() {
        let mut kids = vec![];
        let runs = if b > 0 && id != "C16" { runs / 5 } else { runs };
        for k in 0..procs {
            let p = dir.join(format!("p{}-{}", b, k));
            let o = dir.join(format!("o{}-{}", b, k));
            let mut init = vec![0u8; 8];
            init.extend_from_slice(&u64::MAX.to_le_bytes());
            std::fs::write(&p, init).unwrap();
            let pf = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
            let ch = Command::new(exe).args(["worker", id, &vseed.to_string(), &k.to_string(), &procs.to_string(), &runs.to_string()]).arg(&p).arg(&o)
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
            kids.push((k, ch, pf, o, false, 0u64, Instant::now()));
        }
        let mut digests = BTreeMap::new();
        let mut stop = u64::MAX;
        loop {
            let mut open = 0;
            for (k, ch, pf, o, done, last, since) in kids.iter_mut() {
                if *done { continue; }
                let mut bts = [0u8; 8];
                pf.read_at(&mut bts, 0).unwrap();
                let idx = u64::from_le_bytes(bts);
                let mut end: Option<Bad> = None;
                if let Some(s) = ch.try_wait().unwrap() {
                    *done = true;
                    if s.success() {
                        match load(o) {
                            Some(p) => {
                                for (i, d) in p.digests.iter().enumerate() { digests.insert(*k + i as u64 * procs, *d); }
                                total.n += if b == 0 { p.n } else { 0 };
                                if b > 0 { total.st.add("runs-in-other-builds", p.n); }
                                for s in &p.st.samples { if total.st.samples.len() < 4 { total.st.samples.push(s.clone()); } }
                                merge(&mut total.st, p.st);
                                total.odd.extend(p.odd);
                                if let Some((i, bd, t)) = p.verdict {
                                    if found.as_ref().map_or(true, |f| i < f.idx) { found = Some(Found { build: b, idx: i, bad: bd, tape: Some(t), start: *k, step: procs }); }
                                    stop = stop.min(i);
                                }
                            }
                            None => { eprintln!("worker {} left no result", k); return 2; }
                        }
                    } else {
                        use std::os::unix::process::ExitStatusExt;
                        match s.signal() {
                            Some(9) => { eprintln!("worker {} was killed from outside", k); return 2; }
                            Some(x) => end = Some(Bad { class: "crash".into(), msg: format!("the process running the parser was ended by signal {} (abort, stack overflow, or a refused allocation of over {} MiB)", x, crate::meter::REFUSE >> 20) }),
                            None => { eprintln!("worker {} ended with {}", k, s); return 2; }
                        }
                    }
                } else {
                    open += 1;
                    if idx != *last { *last = idx; *since = Instant::now(); }
                    if since.elapsed() > Duration::from_secs(60) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *done = true;
                        end = Some(Bad { class: "hang".into(), msg: "a run did not end within 60 s".into() });
                    }
                }
                if let Some(bd) = end {
                    if found.as_ref().map_or(true, |f| idx < f.idx) { found = Some(Found { build: b, idx, bad: bd, tape: None, start: *k, step: procs }); }
                    stop = stop.min(idx);
                }
            }
            if open == 0 { break; }
            if t0.elapsed() > cap * (b as u32 + 1) { stop = 0; capped = true; }
            if stop != u64::MAX { for x in &kids { let _ = x.2.write_at(&stop.to_le_bytes(), 8); } }
            std::thread::sleep(Duration::from_millis(5));
        }
        all_digests.push(digests);
        if found.is_some() { break; }
    }
    if found.is_none() && id == "C16" {
        let mut cmp = 0u64;
        for (b, d) in all_digests.iter().enumerate().skip(1) {
            let b_ = b; let b = 0;
            for (i, x) in d {
                if let Some(y) = all_digests[0].get(i) {
                    if *x == 0 { continue; }
                    cmp += 1;
                    if x != y && found.as_ref().map_or(true, |f| *i < f.idx) {
                        found = Some(Found { build: b, idx: *i, bad: Bad { class: "builds-differ".into(), msg: format!("run {} differs between the build with std and the build {}", i, ["", "with alloc only", "without alloc"][b_]) }, tape: None, start: *i % procs, step: procs });
                    }
                }
            }
        }
        total.st.add("histories-compared-between-builds", cmp);
    }
    let wall_runs = t0.elapsed().as_secs_f64();

    let mut rc = 0;
    let mut viol = 0;
    if let Some(f) = found {
        if f.bad.class == "harness" { eprintln!("{}", f.bad.msg); eprintln!("run {} of seed {}", f.idx, vseed); return 2; }
        viol = 1;
        rc = 1;
        let exes = if id == "C16" { exes.clone() } else { vec![exes[f.build].clone()] };
        let tape = f.tape.unwrap_or_else(|| {
            let p = dir.join("spill");
            let mut ch = Command::new(&exes[0]).args(["spill", id, &vseed.to_string(), &f.idx.to_string()]).arg(&p).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            let t1 = Instant::now();
            while ch.try_wait().unwrap().is_none() { if t1.elapsed() > Duration::from_secs(20) { let _ = ch.kill(); let _ = ch.wait(); break; } std::thread::sleep(Duration::from_millis(5)); }
            std::fs::read(&p).unwrap_or_default().chunks_exact(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect()
        });
        let mut r = Replay { check: id.into(), build: if f.build > 0 && id != "C16" { "noalloc".into() } else { String::new() }, catalog: w.catalog_seed, tape, class: f.bad.class.clone(), msg: f.bad.msg.clone(), ..Replay::default() };
        let full = r.tape.len();
        let (tries, mut repro) = minimise(&exes, &dir, &mut r, Duration::from_secs(60));
        if !repro {
            // something carried over from earlier runs of the process is needed
            let mut k = 1u64;
            loop {
                let from = f.idx.saturating_sub(k * f.step).max(f.start);
                r.prelude = Some((vseed, from, f.step, f.idx));
                let x = try_all(&exes, &dir, &r, false, 120);
                if x.class == r.class { repro = true; r.note = "needs the preceding runs of the prelude in the same process: something is carried over from one parse to another".into(); minimise(&exes, &dir, &mut r, Duration::from_secs(45)); break; }
                if from == f.start { r.prelude = None; r.note = "did not reproduce in a fresh process".into(); break; }
                k *= 4;
            }
        }
        let x = try_all(&exes, &dir, &r, true, 120);
        if x.class == r.class { if !x.msg.is_empty() { r.msg = x.msg.clone(); } r.trace = x.trace.clone(); }
        let rd = root.join("replays");
        std::fs::create_dir_all(&rd).unwrap();
        let p = rd.join(format!("{}-{}-{}.replay", id, vseed, f.idx));
        write_replay(&p, &r);
        println!("run {} of seed {}{}: {}", f.idx, vseed, if r.build.is_empty() { "" } else { " in the build without allocation" }, r.class);
        println!("{}", r.msg);
        println!("minimised from {} to {} choices in {} attempts; replay verified: {}", full, r.tape.len(), tries, repro);
        for l in r.trace.iter().take(60) { println!("  | {}", l); }
        println!("VIOLATION property={} replay={}", id, p.display());
    }
    // accumulate over catalogues (thorough tier)
    let mut cats = vec![w.catalog_seed.to_string()];
    let mut wall = wall_runs;
    if let Ok(acc) = std::env::var("ND_ACC") {
        let ap = Path::new(&acc);
        let meta = PathBuf::from(format!("{}.meta", acc));
        if let Some(p) = load(ap) {
            total.n += p.n;
            merge(&mut total.st, p.st);
            total.odd.extend(p.odd);
            if let Ok(s) = std::fs::read_to_string(&meta) { let mut l = s.lines(); let mut old: Vec<String> = l.next().unwrap_or("").split_whitespace().map(|x| x.into()).collect(); old.append(&mut cats); cats = old; wall += l.next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0); }
        }
        let tmp = Part { n: total.n, st: Stats::default(), ..Part::default() };
        save(ap, &tmp, &total);
        let _ = std::fs::write(&meta, format!("{}\n{}\n", cats.join(" "), wall));
    }
    evidence(&root, &c, w, vseed, thorough, runs, procs, &total, wall, viol, capped, &cats);
    let _ = std::fs::remove_dir_all(&dir);
    if rc == 0 { println!("ok: {} runs, {} parses, {} distinct, {:.1} s", total.n, total.st.parses, total.st.states.len(), wall_runs); }
    if !total.odd.is_empty() { println!("note: {} runs did not repeat exactly in the same process, first {}", total.odd.len(), total.odd[0]); }
    rc
}

fn save(p: &Path, head: &Part, t: &Part) {
    let mut o: Vec<u8> = vec![];
    let put = |o: &mut Vec<u8>, s: &str| { o.extend_from_slice(&(s.len() as u32).to_le_bytes()); o.extend_from_slice(s.as_bytes()); };
    let put8 = |o: &mut Vec<u8>, x: u64| o.extend_from_slice(&x.to_le_bytes());
    for x in [head.n, t.st.parses, t.st.ticks] { put8(&mut o, x); }
    put8(&mut o, t.st.counts.len() as u64);
    for (k, v) in &t.st.counts { put(&mut o, k); put8(&mut o, *v); }
    for s in [&t.st.states, &t.st.schedules] { put8(&mut o, s.len() as u64); for x in s.iter() { put8(&mut o, *x); } }
    put8(&mut o, 0);
    put8(&mut o, t.odd.len() as u64);
    for x in &t.odd { put8(&mut o, *x); }
    put8(&mut o, 0);
    put8(&mut o, 0);
    let _ = std::fs::write(p, o);
}

#[allow(clippy::too_many_arguments)]
fn evidence(root: &Path, c: &Check, w: &World, vseed: u64, thorough: bool, runs: u64, procs: u64, t: &Part, wall: f64, viol: u64, capped: bool, cats: &[String]) {
    let pick = |p: &str| t.st.counts.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| format!("{}: {}", esc(&k[p.len()..]), v)).collect::<Vec<_>>().join(", ");
    let other = t.st.counts.iter().filter(|(k, _)| !k.starts_with("fault:") && !k.starts_with("probe:")).map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    let missed: Vec<String> = c.probes.iter().filter(|p| !t.st.counts.contains_key(&format!("probe:{}", p))).map(|p| esc(p)).collect();
    let per_hour = if wall > 0.0 { (t.n as f64 / wall * 3600.0) as u64 } else { 0 };
    let s = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {vseed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {n},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"parses_of_real_code\": {parses},\n  \"runs_per_hour\": {ph},\n  \"seeds_per_hour\": {ph},\n  \"simulated_ticks\": {ticks},\n  \"distinct_schedules\": {sch},\n  \"faults_injected\": {{{faults}}},\n  \"probes\": {{{probes}}},\n  \"probes_missed\": [{missed}],\n  \"other_counts\": {{{other}}},\n  \"declarations_in_catalogue\": {decl},\n  \"declarations_left_out\": {left},\n  \"catalogues\": [{cats}],\n  \"worker_processes\": {procs},\n  \"runs_planned_per_catalogue\": {runs},\n  \"stopped_by_time_cap\": {capped},\n  \"runs_that_did_not_repeat\": {odd},\n  \"real_components\": {real},\n  \"stubbed_components\": {stub}\n }},\n \"assumptions\": [{assume}],\n \"wall_s\": {wall:.3},\n \"violations\": {viol}\n}}\n",
        id = esc(c.id), tier = if thorough { "\"thorough\"" } else { "\"quick\"" }, n = t.n, dn = t.st.states.len(), rule = esc(c.rule),
        samples = t.st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), parses = t.st.parses, ph = per_hour, ticks = t.st.ticks, sch = t.st.schedules.len(),
        faults = pick("fault:"), probes = pick("probe:"), missed = missed.join(", "), decl = w.cat.v.len(), left = w.left_out, cats = cats.join(", "), odd = t.odd.len(), real = esc(c.real), stub = esc(c.stub),
        assume = [
            "seeded search: what it does not sample it does not decide",
            "the declarations are those of a generated catalogue covering the documented attributes and their combinations",
            "where a reference interpreter is the oracle it is trusted; the amount of input a request names is judged by C02, not by it",
            "simulated time counts deliveries and attempts (ticks): the library has no clock",
        ].iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
    );
    let d = root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", c.id)), s);
}

// ---------------------------------------------------------------- entry

pub fn main(w: World) -> ! {
    quiet_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => exit(parent(&w, &a[1])),
        "worker" => { worker(&w, &a[1..]); exit(0) }
        "try" => { try_file(&w, &a[1], &a[2], a.get(3).map_or(false, |x| x == "1")); exit(0) }
        "spill" => {
            let c = checks::get(&a[1]).unwrap();
            let pools = checks::pools(&c, &w);
            let mut t = Tape::seeded(run_seed(num(&a[2]), c.id, num(&a[3])));
            t.spill = Some(std::fs::File::create(&a[4]).unwrap());
            let mut st = Stats::default();
            let _ = once(&w, &c, &pools, &mut t, &mut st);
            exit(0)
        }
        // one run with its trace
        "one" => {
            let c = checks::get(&a[1]).unwrap();
            let pools = checks::pools(&c, &w);
            let mut t = Tape::seeded(run_seed(num(&a[2]), c.id, num(&a[3])));
            let mut st = Stats { tracing: true, ..Stats::default() };
            let v = once(&w, &c, &pools, &mut t, &mut st);
            for l in &st.trace { println!("{}", l); }
            println!("digest {:x} verdict {:?}", st.digest, v);
            exit(0)
        }
        "replay" => {
            let r = match read_replay(&a[1]) { Some(r) => r, None => { eprintln!("not a replay file"); exit(2) } };
            if r.catalog != w.catalog_seed { eprintln!("the replay is for catalogue {}, this build has {}", r.catalog, w.catalog_seed); exit(2); }
            if r.class == UNTRACEABLE {
                if let Some(n) = w.untraceable.first() { println!("declaration {} does not compile with Debug", n); println!("VIOLATION property={} replay={}", r.check, a[1]); exit(1) }
                println!("not reproduced (recorded class: {})", r.class);
                exit(0)
            }
            let dir = std::env::temp_dir().join(format!("ndsim-replay-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let mut exes = vec![std::env::current_exe().unwrap()];
            for k in ["ND_ALLOC_BIN", "ND_NOALLOC_BIN"] { if let Ok(p) = std::env::var(k) { exes.push(p.into()); } }
            let x = try_all(&exes, &dir, &r, true, 120);
            for l in &x.trace { println!("{}", l); }
            println!("{}: {}", x.class, x.msg);
            let _ = std::fs::remove_dir_all(&dir);
            if x.class == r.class { println!("VIOLATION property={} replay={}", r.check, a[1]); exit(1) }
            println!("not reproduced (recorded class: {})", r.class);
            exit(0)
        }
        // fingerprints of runs, for proofs of determinism
        "digest" => {
            let c = checks::get(&a[1]).unwrap();
            let pools = checks::pools(&c, &w);
            let mut o = String::new();
            let step = a.get(5).map_or(1, |s| num(s));
            let mut i = num(&a[3]);
            while i < num(&a[4]) {
                let mut t = Tape::seeded(run_seed(num(&a[2]), c.id, i));
                let mut st = Stats::default();
                let v = once(&w, &c, &pools, &mut t, &mut st);
                o.push_str(&format!("{} {:016x} {} {}\n", i, st.digest, t.log.len(), v.is_ok()));
                i += step;
            }
            print!("{}", o);
            exit(0)
        }
        "list" => {
            for c in checks::all() { println!("{} {} {:?}", c.id, c.quick, (c.pool)(&w).iter().map(|p| p.len()).collect::<Vec<_>>()); }
            exit(0)
        }
        "decl" => {
            let mut s = String::new();
            let mut al = crate::emit::Aliases::default();
            s.push_str(&crate::emit::decl(&w.cat, num(&a[1]) as usize, &mut al));
            println!("{}", s);
            exit(0)
        }
        _ => { eprintln!("usage: ndsim check|one|replay|digest|list .."); exit(2) }
    }
}
