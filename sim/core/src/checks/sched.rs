//! C12: several parses interleaved by a scheduler that owns every switch: tasks on threads parked
//! at user-code boundaries, parses nested inside user callbacks, parses abandoned by a panic.
use super::*;
use crate::exec::*;
use crate::rt::Plan;
use crate::tape::Tape;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

pub const C12: Check = Check {
    id: "C12",
    pool: |w| vec![pool(w, |_, _| true), pool(w, |s, _| matches!(s.tag, "hooks" | "fault" | "setend" | "fault_core"))],
    run,
    quick: 300_000,
    rule: "one evaluation is a set of parses (2-4, sometimes a crowd of up to 140), each with its own input, arguments, session and faults, first run alone and then interleaved: on threads released one at a time at user-code boundaries, nested inside each other's user code, one after another with abandoned attempts in between, or after a storm of hundreds of failed attempts; the last runs of every worker process are also compared with the same runs in a fresh process; non-trivial when at least one switch happened inside a parse; distinct by schedule (sequence of tasks released) and by (declarations, outcomes)",
    real: REAL,
    stub: "thread scheduler (baton passed at user-code boundaries), user code",
    no_alloc: true,
    probes: &["switch-inside-parse", "re-entrant-parse", "abandoned-by-panic", "same-declaration-twice", "three-threads", "crowd-inside-parse", "deep-re-entrance", "storm-of-failed-attempts", "reused-buffer"],
};

#[derive(Clone)]
struct Task { case: Case, data: Vec<u8>, plan: Plan, ge: bool, solo: Option<Obs> }

struct Baton { turn: usize, done: Vec<bool>, waiting: Vec<bool>, parked: usize }

fn task(r: &mut Run, case: Case) -> Task {
    let b = *r.t.pick(&[0usize, 0, 15]);
    let (mut data, _) = r.record(&case, b);
    match r.t.below(6) { 4 => { let n = r.t.below(data.len() + 1); data.truncate(n); } 5 => r.damage(&mut data), _ => {} }
    let mut plan = case.plan();
    let calls = model(r.w, &case, &data, &plan).calls;
    if calls > 0 && r.t.pct(30) { let n = r.t.below(calls as usize) as u32; let f = r.fault(); plan.faults.push((n, f)); if f == crate::rt::Fault::Panic { r.st.probe("abandoned-by-panic"); } }
    let ge = r.w.entries[case.id].run_ge.is_some() && r.t.pct(30);
    Task { case, data, plan, ge, solo: None }
}

fn run(r: &mut Run, pools: &[Vec<Id>]) -> Verdict {
    let mode = r.t.below(1000);
    let crowd = (990..994).contains(&mode);
    let n = if crowd { 1 + r.t.below(2) } else { 2 + r.t.below(3) };
    let mut tasks: Vec<Task> = vec![];
    for k in 0..n {
        let same = k > 0 && r.t.pct(35);
        let case = if same { r.st.probe("same-declaration-twice"); let id = tasks[0].case.id; r.case_for(id) } else { let k = r.t.below(10); r.case(&pools[if k >= 3 || crowd { 1 } else { 0 }]) };
        let mut t = task(r, case);
        if same && r.t.pct(40) {
            // other bytes in a receive buffer that is reused: same place, same length
            t = Task { solo: None, ..tasks[0].clone() };
            for _ in 0..1 + r.t.below(2) {
                let at = r.t.below(t.data.len().max(1));
                let v = *r.t.pick(&[0xffu8, 0x80, 0xc3, 0, 1, 2, 0x41]);
                if let Some(b) = t.data.get_mut(at) { *b = v; }
            }
            r.st.probe("reused-buffer");
        }
        tasks.push(t);
    }
    for t in tasks.iter_mut() {
        let o = exec_at(r.w, &t.case, &t.data, &t.plan, HERE, t.ge, None);
        r.st.see_obs(&o);
        r.note(&o);
        // not judged here: asks the driver to compare this run with the same run in a fresh process
        if !agree(&o.out, &model(r.w, &t.case, &t.data, &t.plan).out) { r.st.count("suspect"); }
        t.solo = Some(o);
    }
    for (k, t) in tasks.iter().enumerate() { let s = r.lazy(&t.case); r.st.say(|| format!("task {}: {} faults {:?} alone {}\n{}", k, hex(&t.data), t.plan.faults, t.solo.as_ref().unwrap().out.short(), s)); }
    let mut order: Vec<u8> = vec![];
    let obs: Vec<(usize, Obs)> = if crowd {
        // many parses of one or two declarations in progress at once
        let m = *r.t.pick(&[9usize, 17, 20, 34, 66, 130]) + r.t.below(6);
        tasks = (0..m).map(|k| tasks[k % n].clone()).collect();
        threads(r, &tasks, &mut order)
    } else if mode >= 997 {
        nested(r, &tasks, &mut order, 20 + 40 * (mode as u32 - 997), 92)
    } else if mode >= 994 {
        storm(r, &tasks, pools, &mut order)
    } else { match mode % 5 {
        0 | 1 => threads(r, &tasks, &mut order),
        2 | 3 => nested(r, &tasks, &mut order, 3, 25),
        _ => {
            // one after another, in an order and multiplicity the scheduler picks
            let mut v = vec![];
            for _ in 0..2 * tasks.len() {
                let k = r.t.below(tasks.len());
                order.push(k as u8);
                let t = &tasks[k];
                v.push((k, exec_at(r.w, &t.case, &t.data, &t.plan, HERE, t.ge, None)));
            }
            v
        }
    } };
    r.st.ticks += order.len() as u64;
    let h = str_hash(&format!("{:?}", order));
    r.st.schedules.insert(h);
    r.st.say(|| format!("schedule {:?}", order));
    if order.windows(2).any(|w| w[0] != w[1]) { r.st.fault("task-switch"); }
    for (k, o) in &obs {
        r.st.see_obs(o);
        let t = &tasks[*k];
        let s = t.solo.as_ref().unwrap();
        r.st.state(&[t.case.id as u64, o.out.class() as u64, h]);
        if !o.same(s) {
            return bad("interference", format!("task {} ({}) alone gives {} with log {:?}; interleaved as {:?} it gives {} with log {:?}; {}", k, hex(&t.data), s.out.short(), s.events.iter().take(20).collect::<Vec<_>>(), order, o.out.short(), o.events.iter().take(20).collect::<Vec<_>>(), r.describe(&t.case)));
        }
        if s.ledger.is_ok() && o.ledger.is_err() { return bad("interference", format!("task {}: {:?} only when interleaved; {}", k, o.ledger, r.describe(&t.case))); }
    }
    Ok(())
}

/// hundreds of failed, truncated and abandoned attempts, then the parses again
fn storm(r: &mut Run, tasks: &[Task], pools: &[Vec<Id>], order: &mut Vec<u8>) -> Vec<(usize, Obs)> {
    r.st.probe("storm-of-failed-attempts");
    let m = *r.t.pick(&[70usize, 140, 300, 600]);
    let seed = r.t.seed();
    let mut g = crate::rng::Rng::new(seed);
    let other = { let c = r.case(&pools[1]); task(r, c) };
    for _ in 0..m {
        let t = if g.pct(70) { &tasks[g.below(tasks.len())] } else { &other };
        let mut plan = t.plan.clone();
        let mut d = t.data.clone();
        match g.below(4) {
            0 => plan.faults = vec![(g.below(4) as u32, crate::rt::FAULT_KINDS[g.below(5)])],
            1 | 2 => { let k = g.below(d.len() + 1); d.truncate(k); }
            _ => { let k = g.below(d.len().max(1)); if let Some(b) = d.get_mut(k) { *b = g.next() as u8; } }
        }
        let o = exec_at(r.w, &t.case, &d, &plan, HERE, t.ge, None);
        r.st.see_obs(&o);
        r.note(&o);
    }
    let mut v = vec![];
    for (k, t) in tasks.iter().enumerate() { order.push(k as u8); v.push((k, exec_at(r.w, &t.case, &t.data, &t.plan, HERE, t.ge, None))); }
    v
}

fn threads(r: &mut Run, tasks: &[Task], order: &mut Vec<u8>) -> Vec<(usize, Obs)> {
    let n = tasks.len();
    if n >= 3 { r.st.probe("three-threads"); }
    // one condition per task, the last one is the scheduler's
    let b = Arc::new((Mutex::new(Baton { turn: usize::MAX, done: vec![false; n], waiting: vec![false; n], parked: 0 }), (0..n + 1).map(|_| Condvar::new()).collect::<Vec<_>>()));
    let results: Vec<Mutex<Option<Obs>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let w = r.w;
    let t: &mut Tape = r.t;
    let mut inside = false;
    // parses in progress at the same time
    let mut started = vec![false; n];
    let mut most = 0;
    std::thread::scope(|sc| {
        for k in 0..n {
            let b = b.clone();
            let task = &tasks[k];
            let results = &results;
            sc.spawn(move || {
                let wait = move |b: &Arc<(Mutex<Baton>, Vec<Condvar>)>| {
                    let mut g = b.0.lock().unwrap();
                    g.waiting[k] = true;
                    g.parked += 1;
                    if g.turn == k { g.turn = usize::MAX; }
                    b.1[n].notify_one();
                    while g.turn != k { g = b.1[k].wait(g).unwrap(); }
                    g.waiting[k] = false;
                    g.parked -= 1;
                };
                wait(&b);
                let b2 = b.clone();
                let count = Rc::new(Cell::new(0u32));
                // at most 40 switches inside one parse (3 in a crowd)
                let lim = if n > 4 { 3 } else { 40 };
                let y: Rc<dyn Fn()> = Rc::new(move || { if count.get() < lim { count.set(count.get() + 1); wait(&b2); } });
                let o = exec_at(w, &task.case, &task.data, &task.plan, HERE, task.ge, Some(y));
                *results[k].lock().unwrap() = Some(o);
                let mut g = b.0.lock().unwrap();
                g.done[k] = true;
                g.parked += 1;
                g.turn = usize::MAX;
                b.1[n].notify_one();
            });
        }
        // the scheduler: waits until everybody is parked, then releases one
        loop {
            let mut g = b.0.lock().unwrap();
            while g.turn != usize::MAX || g.parked < n { g = b.1[n].wait(g).unwrap(); }
            let ready: Vec<usize> = (0..n).filter(|k| !g.done[*k]).collect();
            most = most.max(ready.iter().filter(|k| started[**k]).count());
            if ready.is_empty() { break; }
            // in a crowd everybody enters before anybody leaves
            let fresh: Vec<usize> = if n > 4 { ready.iter().copied().filter(|k| !started[*k]).collect() } else { vec![] };
            let k = if fresh.is_empty() { *t.pick(&ready) } else { *t.pick(&fresh) };
            started[k] = true;
            if let Some(l) = order.last() { if *l as usize != k && !g.done[*l as usize] { inside = true; } }
            order.push(k as u8);
            g.turn = k;
            b.1[k].notify_one();
        }
    });
    if inside { r.st.probe("switch-inside-parse"); }
    if most >= 9 { r.st.probe("crowd-inside-parse"); r.st.fault("crowd-of-parses"); }
    results.into_iter().enumerate().map(|(k, m)| (k, m.into_inner().unwrap().unwrap())).collect()
}

/// parses started from inside user code of other parses
fn nested(r: &mut Run, tasks: &[Task], order: &mut Vec<u8>, deep: u32, chance: u32) -> Vec<(usize, Obs)> {
    struct Sh { tape: Tape, order: Vec<u8>, out: Vec<(usize, Obs)>, depth: u32, budget: u32, deep: u32, most: u32, chance: u32, w: *const World, tasks: *const Task, n: usize }
    let sh = Rc::new(RefCell::new(Sh { tape: std::mem::replace(r.t, Tape::replay(vec![])), order: vec![], out: vec![], depth: 0, budget: 24.max(2 * deep), deep, most: 0, chance, w: r.w, tasks: tasks.as_ptr(), n: tasks.len() }));
    fn go(sh: &Rc<RefCell<Sh>>, k: usize) {
        let (w, t) = unsafe { let s = sh.borrow(); (&*s.w, &*s.tasks.add(k)) };
        sh.borrow_mut().order.push(k as u8);
        let sh2 = sh.clone();
        let y: Rc<dyn Fn()> = Rc::new(move || {
            let next = {
                let mut s = sh2.borrow_mut();
                if s.depth >= s.deep || s.budget == 0 { return; }
                let n = s.n;
                let chance = s.chance;
                if !s.tape.pct(chance as usize) { return; }
                s.budget -= 1;
                s.depth += 1;
                s.most = s.most.max(s.depth);
                s.tape.below(n)
            };
            go(&sh2, next);
            sh2.borrow_mut().depth -= 1;
        });
        let o = exec_at(w, &t.case, &t.data, &t.plan, HERE, t.ge, Some(y));
        let mut s = sh.borrow_mut();
        s.order.push(100 + k as u8);
        s.out.push((k, o));
    }
    for k in 0..tasks.len() { go(&sh, k); }
    let s = Rc::try_unwrap(sh).ok().expect("scheduler still referenced").into_inner();
    *r.t = s.tape;
    if s.out.len() > tasks.len() { r.st.probe("re-entrant-parse"); r.st.fault("re-entrant-parse"); r.st.probe("switch-inside-parse"); }
    if s.most >= 9 { r.st.probe("deep-re-entrance"); }
    *order = s.order;
    s.out
}
