use std::{env, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../oracle");
    let mut objs = vec![];
    for f in ["oracle", "golden"] {
        println!("cargo:rerun-if-changed={dir}/{f}.c");
        let o = format!("{out}/{f}.o");
        let st = Command::new("gcc")
            .args(["-O2", "-ffp-contract=off", "-fPIC", "-c", "-w", "-o", &o, &format!("{dir}/{f}.c")])
            .status().expect("gcc");
        assert!(st.success(), "gcc failed");
        objs.push(o);
    }
    println!("cargo:rerun-if-changed={dir}/rgamma_coef.h");
    println!("cargo:rerun-if-changed={dir}/golden.txt");
    let lib = format!("{out}/liboracle.a");
    let _ = std::fs::remove_file(&lib);
    let st = Command::new("ar").args(["rcs", &lib]).args(&objs).status().expect("ar");
    assert!(st.success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=oracle");
    println!("cargo:rustc-link-lib=m");
}
