//! The catalogue and its printer, as a library of the shards' build script.
#[path = "../../core/src/schema.rs"]
#[allow(dead_code)]
pub mod schema;
#[path = "../../core/src/rng.rs"]
#[allow(dead_code)]
pub mod rng;
#[path = "../../core/src/catalog.rs"]
#[allow(dead_code)]
pub mod catalog;
#[path = "../../core/src/emit.rs"]
#[allow(dead_code)]
pub mod emit;

#[path = "../../core/src/ropecat.rs"]
#[allow(dead_code)]
pub mod ropecat;

/// writes the declarations of one shard
pub fn build_script() {
    println!("cargo:rerun-if-env-changed=ND_CATALOG");
    println!("cargo:rerun-if-env-changed=ND_SKIP");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("ND_CATALOG").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let skip = std::env::var("ND_SKIP").unwrap_or_default();
    let shard: usize = std::env::var("CARGO_PKG_NAME").unwrap().trim_start_matches("ndshard").parse().unwrap();
    let level = if std::env::var_os("CARGO_FEATURE_FULL").is_some() { 2 } else if std::env::var_os("CARGO_FEATURE_ALLOC").is_some() { 1 } else { 0 };
    let mut cat = catalog::build(seed);
    cat.exclude(&skip.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<usize>>());
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap()).join("decls.rs");
    std::fs::write(out, emit::emit(&cat, level, shard, SHARDS)).unwrap();
}
pub const SHARDS: usize = 8;
