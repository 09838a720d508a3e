//! With the feature `cxx`: compile /repo's C++ classes and the driver with AddressSanitizer and
//! link them into `cxxcheck` (the runtime comes from rustc's -Zsanitizer=address).
use std::path::PathBuf;
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_CXX").is_none() {
        return;
    }
    let repo = "/repo";
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    println!("cargo:rerun-if-changed={}/include", repo);
    println!("cargo:rerun-if-changed={}/src/cxx", repo);
    println!("cargo:rerun-if-changed=cxx");
    let mut sources: Vec<PathBuf> = std::fs::read_dir(format!("{}/src/cxx", repo))
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "cpp"))
        .collect();
    sources.sort();
    sources.push("cxx/driver.cpp".into());
    let lib = out.join("libadvcxx.a");
    let _ = std::fs::remove_file(&lib);
    let mut objs = vec![];
    for s in &sources {
        let o = out.join(s.file_stem().unwrap()).with_extension("o");
        let status = Command::new("clang++")
            .args(["-std=gnu++14", "-O1", "-g1", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_IN_ADV"])
            .arg(format!("-I{}/include", repo))
            .arg("-c")
            .arg(s)
            .arg("-o")
            .arg(&o)
            .status()
            .expect("clang++");
        assert!(status.success(), "compiling {} failed", s.display());
        objs.push(o);
    }
    let status = Command::new("ar").arg("crs").arg(&lib).args(&objs).status().expect("ar");
    assert!(status.success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=advcxx");
    println!("cargo:rustc-link-lib=stdc++");
}
