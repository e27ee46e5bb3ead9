//! The library's `Parse` implementations over a segmented input (C19).
use ndsim_core::rope::{finish_rope, Rope};
use ndsim_core::rt::{self, ErrPos, Mini, MyErr, Only, Out, ToVal, Tok, Val};
use ndsim_core::schema::Fl;
use ndsim_core::{absent, Entry};
use nom::error::{Error, ParseError};
use nom_derive::{LengthData, Parse};

#[global_allocator]
static METER: ndsim_core::meter::Meter = ndsim_core::meter::Meter;

/// the catalogue describes each type as a structure of one field
fn one(o: Out) -> Out { if let Out::Ok { val, off, len } = o { let _pause = ndsim_core::meter::Pause::new(); Out::Ok { val: Val::R(vec![val]), off, len } } else { o } }

fn go<'x, S, R, E, F>(fl: Fl, i: &'x [u8], sel: i64) -> Out
where
    S: Parse<&'x [u8], E> + ToVal, E: ParseError<&'x [u8]> + ErrPos,
    R: Parse<Rope, F> + ToVal, F: ParseError<Rope> + ErrPos,
{
    if sel == 0 {
        return one(rt::finish(i, match fl { Fl::No => S::parse(i), Fl::Be => S::parse_be(i), Fl::Le => S::parse_le(i) }));
    }
    let i = Rope::cut(i, sel);
    let j = i.clone();
    one(finish_rope(i, match fl { Fl::No => R::parse(j), Fl::Be => R::parse_be(j), Fl::Le => R::parse_le(j) }))
}

#[allow(warnings)]
mod types { use super::*; include!(concat!(env!("OUT_DIR"), "/types.rs")); }

fn main() {
    let level = if cfg!(feature = "full") { 2 } else { 0 };
    let cat = ndsim_core::ropecat::build();
    let mut entries: Vec<Entry> = cat.v.iter().map(|_| Entry { run: absent, run_ge: None }).collect();
    for (id, e) in types::ENTRIES { entries[*id] = Entry { run: e.run, run_ge: e.run_ge }; }
    ndsim_core::driver::main(ndsim_core::exec::World { cat, entries: entries.leak(), level, catalog_seed: 0, left_out: 0, untraceable: vec![] })
}
