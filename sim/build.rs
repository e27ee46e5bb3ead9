fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=ND_CATALOG");
    println!("cargo:rerun-if-env-changed=ND_SKIP");
    println!("cargo:rustc-env=ND_CATALOG_SEED={}", std::env::var("ND_CATALOG").unwrap_or("1".into()));
    println!("cargo:rustc-env=ND_SKIPPED={}", std::env::var("ND_SKIP").unwrap_or_default());
}
