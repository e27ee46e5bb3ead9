//! The checks, one per property.
use crate::engine::*;
use crate::exec::World;
use crate::schema::Id;

mod link;
mod demand;
mod mutate;
mod complete;
mod log;
mod fault;
mod place;
mod sched;
mod session;
mod mux;
mod twin;
mod anyinput;
mod trace;

pub struct Check {
    pub id: &'static str,
    pub pool: fn(&World) -> Vec<Vec<Id>>,
    pub run: fn(&mut Run, &[Vec<Id>]) -> Verdict,
    /// runs in the quick tier
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// a share of the runs is made in the build without allocation
    pub no_alloc: bool,
    /// probes that must have been hit in a quick run, else the check did not reach its target
    pub probes: &'static [&'static str],
}

pub fn all() -> Vec<Check> {
    vec![link::C01, demand::C02, mutate::C03, mutate::C04, complete::C05, log::C06, fault::C07, fault::C08, mutate::C09, fault::C10, place::C11, sched::C12, session::C13, mux::C14, twin::C15, twin::C16, anyinput::C19, trace::C20]
}
pub fn get(id: &str) -> Option<Check> { all().into_iter().find(|c| c.id == id) }
/// the pools of a check; one that is empty in this build is replaced by another
pub fn pools(c: &Check, w: &World) -> Vec<Vec<Id>> {
    let mut p = (c.pool)(w);
    let other = p.iter().find(|x| !x.is_empty()).cloned().unwrap_or_default();
    for x in &mut p { if x.is_empty() { *x = other.clone(); } }
    p
}
pub const REAL: &str = "code generated by the nom-derive macros for every declaration of the catalogue, the Parse/LengthData implementations of nom-derive, nom itself, all compiled from the working tree";
