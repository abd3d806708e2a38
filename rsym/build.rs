// Prefer the newer libz3 that comes with the python tooling; the system one otherwise.
fn main() {
    let d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var("RSYM_SYSTEM_Z3").is_err() && std::path::Path::new(d).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={}", d);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d);
    }
}
