//! C20: generate crates full of definitions, build and run them
use crate::defs::*;
use crate::fw::*;
use crate::ir::*;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use std::path::PathBuf;
use std::process::Command;
use std::time::{Duration, Instant};

fn def_case() -> BoxedStrategy<DefCase> {
    (prop_oneof![12 => raw(1usize..5, 1..8, 1..4usize), 2 => raw(0usize..5, 0..8, 0..3usize), 1 => raw(0usize..5, 0..8, 0..1usize)], pvec(vals(4), 1..3), vals(4), pvec(any::<u8>(), 30))
        .prop_map(|(raw, pts, dx, style)| DefCase { raw, pts, dx, style })
        .boxed()
}

fn dir() -> PathBuf {
    let t = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    PathBuf::from(t).join("defs")
}

/// A verdict that the check itself could not come to
fn give_up(what: &str) -> ! {
    eprintln!("{}", what);
    std::process::exit(2);
}

fn run_with_limit(cmd: &mut Command, limit: Duration) -> Option<std::process::Output> {
    let out = dir().join("out");
    let mut child = cmd
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let start = Instant::now();
    loop {
        if let Some(status) = child.try_wait().unwrap() {
            return Some(std::process::Output { status, stdout: std::fs::read(&out).unwrap(), stderr: vec![] });
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Build a crate with these definitions and check all of them
fn check_many(cases: &[DefCase]) -> Vec<Res> {
    let d = dir();
    let src = d.join("src");
    let harness = verif_dir().join("harness");
    let _ = std::fs::remove_dir_all(&src);
    std::fs::create_dir_all(&src).unwrap();
    let manifest = std::fs::read_to_string(harness.join("Cargo.toml")).unwrap();
    let part = |name: &str| {
        let at = manifest.find(&format!("[{}]", name)).unwrap();
        let end = manifest[at + 1..].find("\n[").map_or(manifest.len(), |e| at + 1 + e);
        manifest[at..end].to_string()
    };
    let toml = format!(
        "[package]\nname = \"defs\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n{}\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\ncodegen-units = 64\n\n[profile.dev.package.\"*\"]\nopt-level = 2\n",
        part("dependencies")
    );
    let write = |p: PathBuf, s: String| {
        if std::fs::read_to_string(&p).ok().as_ref() != Some(&s) {
            std::fs::write(&p, s).unwrap();
        }
    };
    write(d.join("Cargo.toml"), toml);
    if !d.join("Cargo.lock").exists() {
        let lock = std::fs::read_to_string(harness.join("Cargo.lock")).unwrap();
        write(d.join("Cargo.lock"), lock.replace("name = \"advcheck\"", "name = \"defs\""));
    }
    let mut main = String::from("#![allow(unused)]\n#![allow(deprecated)]\n");
    for m in ["fw", "ir", "defs"] {
        main += &format!("#[path = {:?}]\nmod {};\n", harness.join("src").join(format!("{}.rs", m)), m);
    }
    for (k, c) in cases.iter().enumerate() {
        main += &format!("mod d{};\n", k);
        write(src.join(format!("d{}.rs", k)), plan(c).source);
    }
    main += "fn main() {\n    defs::main_generated(vec![\n";
    for k in 0..cases.len() {
        main += &format!("        defs::Entry {{ plain: d{0}::plain, active: d{0}::active, object: d{0}::object }},\n", k);
    }
    main += "    ]);\n}\n";
    write(src.join("main.rs"), main);
    let list = d.join("cases.json");
    std::fs::write(&list, serde_json::to_string(cases).unwrap()).unwrap();
    let out = Command::new("cargo")
        .args(["build", "--offline", "--message-format=json"])
        .current_dir(&d)
        .output()
        .unwrap_or_else(|e| give_up(&format!("cargo: {}", e)));
    let mut res: Vec<Res> = vec![Ok(()); cases.len()];
    if !out.status.success() {
        // which definitions are refused?
        let mut found = false;
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
            if v["reason"] != "compiler-message" || v["message"]["level"] != "error" || v["target"]["name"] != "defs" {
                continue;
            }
            let text = v["message"]["rendered"].as_str().unwrap_or("").to_string();
            let all = v["message"].to_string();
            for k in 0..cases.len() {
                if all.contains(&format!("src/d{}.rs", k)) && res[k].is_ok() {
                    found = true;
                    res[k] = Err(format!("the definition does not compile:\n{}\n{}", plan(&cases[k]).source, text));
                }
            }
        }
        if !found {
            give_up(&format!("building the generated crate failed: {}", String::from_utf8_lossy(&out.stderr)));
        }
        return res;
    }
    let exe = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "target".into())).join("debug/defs");
    let parse = |out: &std::process::Output, res: &mut Vec<Res>| {
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(line) {
                let k = v["case"].as_u64().unwrap() as usize;
                res[k] = match v["error"].as_str() {
                    None => Ok(()),
                    Some(e) => Err(format!("{}\n{}", e, plan(&cases[k]).source)),
                };
            }
        }
    };
    match run_with_limit(Command::new(&exe).arg(&list), Duration::from_secs(120)) {
        Some(o) if o.status.success() => parse(&o, &mut res),
        _ => {
            for k in 0..cases.len() {
                match run_with_limit(Command::new(&exe).arg(&list).arg(k.to_string()), Duration::from_secs(60)) {
                    Some(o) if o.status.success() => parse(&o, &mut res),
                    Some(o) => res[k] = Err(format!("the process ends with {}\n{}", o.status, plan(&cases[k]).source)),
                    None => res[k] = Err(format!("no result after 60 s\n{}", plan(&cases[k]).source)),
                }
                if res[k].is_err() {
                    break;
                }
            }
        }
    }
    res
}

/// Builds the generated crate with one definition
pub fn build_only() {
    let raw = Raw { n: 1, ins: vec![], outs: vec![0] };
    let c = DefCase { raw, pts: vec![vec![1.0]], dx: vec![1.0], style: vec![] };
    if let Err(e) = &check_many(&[c])[0] {
        give_up(e);
    }
}

pub fn c20(run: &mut Run) {
    run.rule = "Random function definitions written out as source (both argument forms, attributes, \
        visibilities, extra arguments of several types, dimension expressions, ways to write the \
        body and the result), compiled against the library in a generated crate; each is evaluated \
        on plain floats, on active numbers, and as function object (values, derivatives, tapes at \
        several points, two values of a captured argument) against the reference, and with wrong \
        input and result lengths. Non-trivial: an extra argument, attribute, visibility, dimension \
        expression or nested definition is present.";
    run.batch("definitions", (800, 10), def_case, check_many, |c, o| {
        let d = plan(c);
        o.nontrivial = d.classes.len() >= 2;
        o.sample(|| d.source.clone());
        o.classes = d.classes;
    });
}
