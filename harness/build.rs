//! Compiles the native stand-ins (opaque to LTO) with gcc.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=native/krsym_native.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().unwrap().success());
    run(Command::new("gcc").args(["-O1", "-c", "native/krsym_native.c", "-o"]).arg(format!("{out}/krsym_native.o")));
    let _ = std::fs::remove_file(format!("{out}/libkrsym_native.a"));
    run(Command::new("ar").arg("rcs").arg(format!("{out}/libkrsym_native.a")).arg(format!("{out}/krsym_native.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=krsym_native");
}
