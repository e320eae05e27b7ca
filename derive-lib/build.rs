fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-cfg=askama_verif");
    println!("cargo:rustc-check-cfg=cfg(askama_verif)");
}
