use std::{env, path::PathBuf, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("rt.o");
    let st = Command::new("gcc")
        .args(["-O1", "-g", "-fPIE", "-ftls-model=local-exec", "-c", "rt.c", "-o"])
        .arg(&obj)
        .status()
        .expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={}", obj.display());
    println!("cargo:rustc-link-arg-bins=-ldl");
    println!("cargo:rustc-link-arg-bins=-lpthread");
}
