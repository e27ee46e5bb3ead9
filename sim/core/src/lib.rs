//! Deterministic simulation of nom-derive: declarations, reference model, run-time seams, engine.
pub mod rng;
pub mod schema;
pub mod catalog;
pub mod emit;
pub mod rt;
pub mod rope;
pub mod ropecat;
pub mod model;
pub mod tape;
pub mod meter;
pub mod tap;
pub mod exec;
pub mod engine;
pub mod checks;
pub mod driver;

use rt::Out;
use schema::Fl;
pub type Run = fn(Fl, &[u8], i64, &[i64]) -> Out;
pub struct Entry { pub run: Run, pub run_ge: Option<Run> }
pub fn absent(_: Fl, _: &[u8], _: i64, _: &[i64]) -> Out { panic!("declaration absent in this build") }
