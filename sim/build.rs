use std::process::Command;
fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{o}/simrt.o");
    let lib = format!("{o}/libsimrt.a");
    assert!(Command::new("gcc").args(["-O2", "-g", "-Wall", "-fPIC", "-c", "csrc/simrt.c", "-o", &obj]).status().unwrap().success());
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={o}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    for f in ["memcpy", "memmove", "memset", "memcmp"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    println!("cargo:rerun-if-changed=csrc/simrt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
