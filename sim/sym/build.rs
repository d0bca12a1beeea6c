fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=native.c");
    assert!(std::process::Command::new("gcc").args(["-O1", "-c", "native.c", "-o"]).arg(format!("{out}/native.o")).status().unwrap().success());
    let _ = std::fs::remove_file(format!("{out}/librsymnative.a"));
    assert!(std::process::Command::new("ar").arg("crs").arg(format!("{out}/librsymnative.a")).arg(format!("{out}/native.o")).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=rsymnative");
}
