fn main() {
    println!("cargo:rerun-if-env-changed=VH_FFI");
    println!("cargo:rerun-if-env-changed=VERIF_ZOO");
    if let Ok(d) = std::env::var("VH_FFI") {
        println!("cargo:rustc-link-search=native={}", d);
    }
}
