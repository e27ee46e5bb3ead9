//! Runs one parse of the real code: places the bytes at a chosen address between canaries, sets up
//! the seams, catches panics, collects the outcome, the log of user code and the drop ledger.
use crate::meter::{self, Used};
use crate::rt::{self, Ctx, Ev, Injected, Out, Plan};
use crate::schema::*;
use crate::{Entry, model::Model, model::Ran};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct World {
    pub cat: Cat,
    pub entries: &'static [Entry],
    pub level: u8,
    pub catalog_seed: u64,
    /// declarations left out because they do not compile on this tree
    pub left_out: usize,
    /// declarations with Debug that do not compile, although what they trace does
    pub untraceable: Vec<Id>,
}

/// which parser is called and how
#[derive(Clone, Debug, PartialEq)]
pub struct Case { pub id: Id, pub fl: Fl, pub sel: i64, pub args: Vec<i64>, pub env: Vec<i64> }

impl Case {
    pub fn plan(&self) -> Plan { Plan { faults: vec![], env: self.env.clone() } }
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub out: Out,
    pub events: Vec<Ev>,
    pub calls: u32,
    pub fired: u32,
    pub fired_kinds: [u32; 5],
    pub ledger: Result<(), String>,
    pub used: Used,
}
impl Obs {
    pub fn same(&self, o: &Obs) -> bool { self.out == o.out && self.events == o.events && self.calls == o.calls }
}

/// where the bytes lie and what surrounds them
#[derive(Clone, Copy, Debug)]
pub struct Place { pub off: usize, pub fill: u8 }
pub const HERE: Place = Place { off: 4096, fill: 0xA5 };

struct Arena { raw: Vec<u8>, start: usize }
const ALIGN: usize = 1 << 16;
impl Arena {
    fn new(n: usize) -> Arena {
        let raw = vec![0u8; n + ALIGN];
        let start = ALIGN - (raw.as_ptr() as usize & (ALIGN - 1));
        Arena { raw, start }
    }
}
thread_local! {
    static ARENAS: RefCell<Vec<Arena>> = RefCell::new(vec![]);
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| if DEPTH.with(|d| d.get()) == 0 { old(i) }));
}

pub fn exec(w: &World, c: &Case, data: &[u8], plan: &Plan) -> Obs { exec_at(w, c, data, plan, HERE, false, None) }
pub fn exec_ge(w: &World, c: &Case, data: &[u8], plan: &Plan) -> Obs { exec_at(w, c, data, plan, HERE, true, None) }

pub fn exec_at(w: &World, c: &Case, data: &[u8], plan: &Plan, at: Place, ge: bool, yielder: Option<Rc<dyn Fn()>>) -> Obs {
    let depth = DEPTH.with(|d| { let x = d.get(); d.set(x + 1); x }) as usize;
    let need = at.off + data.len() + 64;
    let mut arena = ARENAS.with(|a| { let mut a = a.borrow_mut(); a.pop() }).filter(|a| a.raw.len() >= need + ALIGN).unwrap_or_else(|| Arena::new(need.max(160 << 10)));
    let s = arena.start + at.off;
    let lo = s - at.off.min(64);
    for b in &mut arena.raw[lo..s] { *b = at.fill; }
    let end = s + data.len();
    for b in &mut arena.raw[end..end + 64] { *b = at.fill; }
    arena.raw[s..end].copy_from_slice(data);
    let input: &[u8] = &arena.raw[s..end];
    let saved = rt::CTX.with(|x| x.replace(Ctx { base: input.as_ptr() as usize, len: input.len(), plan: plan.clone(), yielder, depth: depth as u32, ..Ctx::default() }));
    let e = &w.entries[c.id];
    let f = if ge { e.run_ge.expect("generic error entry") } else { e.run };
    meter::start();
    let r = catch_unwind(AssertUnwindSafe(|| f(c.fl, input, c.sel, &c.args)));
    let used = meter::stop();
    let out = match r {
        Ok(o) => o,
        Err(p) => Out::Panic(if p.is::<Injected>() { "injected".into() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() }),
    };
    let ctx = rt::CTX.with(|x| x.replace(saved));
    let leaked = ctx.live.iter().filter(|x| **x).count();
    let ledger = if ctx.bad_drop { Err("a value was dropped twice, or the values alive are not those of the result".into()) } else if leaked > 0 { Err(format!("{} of {} values never dropped", leaked, ctx.born)) } else { Ok(()) };
    ARENAS.with(|a| a.borrow_mut().push(arena));
    DEPTH.with(|d| d.set(d.get() - 1));
    Obs { out, events: ctx.events, calls: ctx.calls, fired: ctx.fired, fired_kinds: ctx.fired_kinds, ledger, used }
}

pub fn model(w: &World, c: &Case, data: &[u8], plan: &Plan) -> Ran { Model::run(&w.cat, c.id, c.fl, data, c.sel, &c.args, plan) }

/// same outcome; the amount of input requested is not compared
pub fn agree(real: &Out, model: &Out) -> bool {
    match (real, model) { (Out::Inc(_), Out::Inc(_)) => true, (a, b) => a == b }
}
