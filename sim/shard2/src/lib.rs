#[allow(warnings)]
mod decls { include!(concat!(env!("OUT_DIR"), "/decls.rs")); }
pub use decls::ENTRIES;
