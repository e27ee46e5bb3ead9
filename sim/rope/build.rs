fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let level = if std::env::var_os("CARGO_FEATURE_FULL").is_some() { 2 } else { 0 };
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap()).join("types.rs");
    std::fs::write(out, ndsim_gen::ropecat::emit(&ndsim_gen::ropecat::build(), level)).unwrap();
}
