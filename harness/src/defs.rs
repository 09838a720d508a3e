//! C20: function definitions as Rust source, and what has to hold for a compiled one. This file
//! is part of the harness and of the generated crate that contains the definitions.
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use advantage as adv;
use adv::{ADouble, DVector, Function};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DefCase {
    pub raw: Raw,
    pub pts: Vec<Vec<f64>>,
    pub dx: Vec<f64>,
    /// how the definition is written
    pub style: Vec<u8>,
}

/// A compiled definition; `s` is the value of its extra argument `scale`, if it has one
pub struct Entry {
    pub plain: fn(DVector<f64>, f64) -> DVector<f64>,
    pub active: fn(DVector<ADouble>, f64) -> DVector<ADouble>,
    pub object: fn(f64) -> Box<dyn Function>,
}

pub struct Def {
    pub prog: Prog,
    pub classes: Vec<&'static str>,
    pub scaled: bool,
    /// the body gives that many results more than declared
    pub excess: i32,
    pub source: String,
}

/// The definition of a case, and the functions through which it is used
pub fn plan(c: &DefCase) -> Def {
    let n = c.raw.n;
    let pts: Vec<Vec<f64>> = c.pts.iter().map(|x| fit(x, n)).collect();
    let prog = compile(&c.raw, Profile::Full, &pts, &[], false);
    let m = prog.m();
    let style = |k: usize| c.style.get(k).copied().unwrap_or(0) as usize;
    let mut classes = vec![];
    let named = style(0) % 2 == 0;
    classes.push(if named { "named vector" } else { "destructured" });
    let (attr, attr_class) = [
        ("", ""),
        ("", ""),
        ("#[allow(unused_variables)]", "attribute"),
        ("/// documented\n#[inline]", "attribute"),
        ("#[must_use]\n#[allow(unused_variables)]\n#[doc(hidden)]", "several attributes"),
    ][style(1) % 5];
    if !attr_class.is_empty() {
        classes.push(attr_class);
    }
    let lint = attr.contains("allow");
    let vis = ["", "", "pub ", "pub(crate) ", "pub(super) "][style(2) % 5];
    if !vis.is_empty() {
        classes.push("visibility");
    }
    let fname = ["f", "input", "func", "result", "the_function"][style(3) % 5];

    // extra arguments: name, type, value
    let mut extras: Vec<(String, &str, String)> = vec![];
    let scaled = style(4) % 3 == 0;
    if scaled {
        extras.push(("scale".into(), "f64", "s".into()));
    }
    let flag = style(5) % 8 == 0;
    if flag {
        extras.push(("flag".into(), "bool", "true".into()));
    }
    let half = style(6) % 8 == 0;
    if half {
        extras.push(("half".into(), "fn(f64) -> f64", "(|x| x / 2.0) as fn(f64) -> f64".into()));
    }
    let mut kept: Vec<f64> = vec![];
    let mut konst = |k: usize, v: f64, extras: &mut Vec<(String, &str, String)>| -> String {
        match style(8 + k % 8) % 6 {
            0 | 1 => format!("({:?}f64)", v),
            2 => {
                let name = format!("c{}", k);
                if !extras.iter().any(|e| e.0 == name) {
                    extras.push((name.clone(), "f64", format!("{:?}", v)));
                }
                name
            }
            3 => {
                let name = format!("t{}", k);
                if !extras.iter().any(|e| e.0 == name) {
                    extras.push((name.clone(), "(usize, [f64; 2])", format!("(1, [0.0, {:?}])", v)));
                }
                format!("{0}.1[{0}.0]", name)
            }
            _ => {
                kept.push(v);
                format!("table[{}]", kept.len() - 1)
            }
        }
    };

    // the body
    let prefix = ["x", "r", "arg", "input", "result", "_v"][style(7) % 6];
    let reg = |r: usize| {
        if prefix == "input" && r == 0 && n == 1 {
            "input".to_string()
        } else if r < n {
            format!("{}{}", prefix, r)
        } else {
            format!("r_{}", r)
        }
    };
    let vname = ["v", "input", "x", "result", "values"][style(16) % 5];
    let mut body = String::new();
    if named {
        for i in 0..n {
            body += &format!("let {} = {}[{}];\n", reg(i), vname, i);
        }
    }
    if lint {
        body += "let nobody_uses_this = 1;\n";
    }
    if flag {
        body += "assert!(flag);\n";
    }
    for (k, ins) in prog.ins.iter().enumerate() {
        let active = |v: String, k: usize| {
            if k % 2 == 0 {
                format!("<Scalar as From<f64>>::from({})", v)
            } else {
                format!("{{ let c: Scalar = ({}).into(); c }}", v)
            }
        };
        let e = match *ins {
            Ins::Const(v) => active(konst(k, v, &mut extras), k),
            Ins::MulAdd(a, b, c) => format!("{}.mul_add({}, {})", reg(a), reg(b), reg(c)),
            Ins::Un(u, a) => {
                let a = reg(a);
                match u {
                    Un::Neg => format!("-{}", a),
                    Un::Powi(p) => {
                        let e = if style(17) % 2 == 0 {
                            let name = format!("p{}", k);
                            extras.push((name.clone(), "i32", format!("{}", p)));
                            name
                        } else {
                            format!("{}", p)
                        };
                        format!("{}.powi({})", a, e)
                    }
                    Un::SinCos(w) => format!("{}.sin_cos().{}", a, w as usize),
                    Un::ToDeg => format!("{}.to_degrees()", a),
                    Un::ToRad => format!("{}.to_radians()", a),
                    _ => format!("{}.{}()", a, format!("{:?}", u).to_lowercase()),
                }
            }
            Ins::Bin(f, x, y, assign) => {
                let op = match f {
                    Bin::Add => "+",
                    Bin::Sub => "-",
                    Bin::Mul => "*",
                    Bin::Div => "/",
                    _ => "",
                };
                let mut show = |o: Opd, plain: bool| match o {
                    Opd::R(r) => reg(r),
                    Opd::F(v) if plain => {
                        let v = konst(k, v, &mut extras);
                        if half { format!("half(2.0 * {})", v) } else { v }
                    }
                    Opd::F(v) | Opd::C(v) => active(konst(k, v, &mut extras), k),
                };
                if !op.is_empty() {
                    let (x_is, x, y) = (matches!(x, Opd::R(_)), show(x, true), show(y, true));
                    if assign && x_is {
                        format!("{{ let mut t = {}; t {}= {}; t }}", x, op, y)
                    } else {
                        format!("{} {} {}", x, op, y)
                    }
                } else {
                    let g = match f {
                        Bin::AbsSub => "abs_sub",
                        Bin::Powf => "powf",
                        Bin::Max => "max",
                        Bin::Min => "min",
                        Bin::Hypot => "hypot",
                        Bin::Log => "log",
                        _ => unreachable!(),
                    };
                    let (x, y) = (show(x, false), show(y, false));
                    format!("({}).{}({})", x, g, y)
                }
            }
        };
        body += &format!("let {}: Scalar = {};\n", reg(n + k), e);
    }
    if !kept.is_empty() {
        let list = format!("{:?}", kept);
        if style(18) % 2 == 0 {
            extras.push(("table".into(), "Vec<f64>", format!("vec!{}", list)));
        } else {
            extras.push(("table".into(), "std::sync::Arc<Vec<f64>>", format!("std::sync::Arc::new(vec!{})", list)));
        }
    }

    // dimensions
    let (mut ndim, ndecl) = match style(19) % 6 {
        0 if named => {
            extras.push(("dim_n".into(), "usize", n.to_string()));
            ("dim_n".to_string(), true)
        }
        1 => (format!("{} + {}", n - n / 2, n / 2), false),
        2 => (format!("NN[{}]", n), false),
        _ => (n.to_string(), false),
    };
    if !named {
        ndim = String::new();
    }
    let (mdim, mdecl) = match if style(27) % 3 == 0 { [0, 1, 4, 4, 4, 2, 6][style(20) % 7] } else { style(20) % 7 } {
        0 => {
            extras.push(("dim_m".into(), "usize", m.to_string()));
            ("dim_m".to_string(), true)
        }
        1 => {
            extras.push(("rows".into(), "usize", "2".into()));
            extras.push(("cols".into(), "usize", m.to_string()));
            ("rows * cols - cols".to_string(), true)
        }
        2 => (format!("2 * {} - {}", m, m), false),
        3 => (format!("NN[{}]", m), false),
        4 if !kept.is_empty() => (format!("table.len() + {} - {}", m, kept.len()), true),
        _ => (m.to_string(), false),
    };
    if ndecl || mdecl {
        classes.push("dimension from an extra argument");
    } else if mdim.contains(' ') || ndim.contains(' ') {
        classes.push("dimension expression");
    }

    // results
    let excess = [0, 0, 0, 0, 0, 0, 1, -1][style(21) % 8] * (m > 1 || style(21) % 8 == 6) as i32;
    if n == 0 || m == 0 {
        classes.push("no arguments or no results");
    }
    if excess != 0 {
        classes.push("wrong result length");
    }
    let mut outs: Vec<String> = prog
        .outs
        .iter()
        .map(|r| if scaled { format!("{} * scale", reg(*r)) } else { reg(*r) })
        .collect();
    if excess > 0 {
        outs.push(outs.first().cloned().unwrap_or("<Scalar as From<f64>>::from(1.0)".into()));
    } else if excess < 0 {
        outs.pop();
    }
    let last = match style(22) % 4 {
        0 => format!("adv_dvec![{}]", outs.join(", ")),
        1 if !outs.is_empty() => format!("adv_dvec![{},]", outs.join(", ")),
        2 if !outs.is_empty() && outs.iter().all(|x| *x == outs[0]) => format!("adv_dvec![{}; {}]", outs[0], outs.len()),
        1 | 2 => format!("adv::DVector::from_vec(vec![{}])", outs.join(", ")),
        _ => {
            let mut s = format!("let mut output = adv::DVector::<Scalar>::zeros({});\n", outs.len());
            for (k, o) in outs.iter().enumerate() {
                s += &format!("output[{}] = {};\n", k, o);
            }
            s + "output"
        }
    };
    let wrong = |k: usize| format!("adv::DVector::<Scalar>::from_element({}, <Scalar as From<f64>>::from(0.5))", k);
    match style(26) % 10 {
        0 => body += &format!("return {{ {} }};\n", last),
        1 => body += &format!("if NN[1] == 1 {{ return {{ {} }}; }}\n{}", last, wrong(m)),
        2 => body += &format!("if NN[1] == 0 {{ return {}; }}\n{}", wrong(m), last),
        3 => body += &format!("for k in 0..3 {{ if k == 1 {{ return {{ {} }}; }} }}\n{}", last, wrong(m + 1)),
        4 => body += &format!("match NN[2] {{ 1 => {}, 2 => return {{ {} }}, _ => panic!() }}", wrong(m + 1), last),
        5 => body += &format!("let values_of = || {{ return {{ {} }}; }};\nvalues_of()", last),
        _ => body += &last,
    }
    if style(26) % 10 < 6 {
        classes.push("return statement");
    }

    // the body may consume and shadow its arguments
    if style(27) % 3 == 0 {
        let mut head = String::new();
        for (a, t, _) in extras.iter() {
            if a == "table" {
                head += "let table = { let moved = table; moved };\n";
                classes.push("consumed argument");
            } else if ["dim_n", "dim_m", "rows", "cols"].contains(&a.as_str()) {
                head += &format!("let {0} = {0} + 1;\nlet _ = {0};\n", a);
                classes.push("shadowed argument");
            } else if *t == "f64" {
                head += &format!("let {0} = {0};\n", a);
            }
        }
        body = head + &body;
    }

    let names: String = extras.iter().map(|(a, t, _)| format!(", {}: {}", a, t)).collect();
    let values: String = extras.iter().map(|(_, _, v)| format!(", {}", v)).collect();
    if !extras.is_empty() {
        classes.push("extra arguments");
    }
    let comma = if style(23) % 4 == 0 { "," } else { "" };
    let first = if named {
        format!("{}: [[{}]]", vname, ndim)
    } else {
        format!("[[{}]]", (0..n).map(reg).collect::<Vec<_>>().join(", "))
    };
    let def = format!("adv_fn! {{\n{}\n{}fn {}({}{}{}) -> [[{}]] {{\n{}\n}}\n}}\n", attr, vis, fname, first, names, comma, mdim, body);
    // sometimes through another function
    let outer = style(24) % 5 == 0;
    let mut used = fname.to_string();
    let mut defs = def;
    if outer {
        classes.push("calls another definition");
        used = "outer".into();
        let extra_names: String = extras.iter().map(|(a, _, _)| format!(", {}", a)).collect();
        defs += &format!(
            "adv_fn! {{ {}fn outer(all: [[{}]]{}) -> [[{}]] {{ {}(all{}) }} }}\n",
            vis, n, names, m, fname, extra_names.replace(", table", ", table.clone()")
        );
    }
    let consts = "const NN: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];\n";
    // with the prelude, with the macros alone, or with nothing but the name of the crate
    let imports = style(28) % 6;
    let head = match imports {
        0 => "use advantage as adv;\n",
        1 => "use advantage as adv;\n#[allow(unused_imports)]\nuse adv::{adv_fn, adv_fn_obj, adv_dvec};\n",
        _ => "use advantage as adv;\nuse adv::prelude::*;\n",
    };
    if imports == 0 {
        classes.push("macros called by path");
    } else if imports == 1 {
        classes.push("macros imported alone");
    }
    let (place, import) = if vis.is_empty() {
        (format!("{}{}", consts, defs), "")
    } else {
        (format!("mod inner {{\n{}{}{}}}\n", head, consts, defs), "use self::inner::*;\n")
    };
    let source = format!(
        "{lint}{head}{import}{place}\
        pub fn plain(x: adv::DVector<f64>, s: f64) -> adv::DVector<f64> {{ {used}(x{values}) }}\n\
        pub fn active(x: adv::DVector<adv::ADouble>, s: f64) -> adv::DVector<adv::ADouble> {{ {used}(x{values}) }}\n\
        pub fn object(s: f64) -> Box<dyn adv::Function> {{ Box::new(adv_fn_obj!({used}{values})) }}\n",
        lint = if lint { "#![deny(unused_variables)]\n" } else { "" },
    );
    let source = if lint {
        // the parameter of the wrappers may be unused
        source.replace("pub fn ", "#[allow(unused_variables)]\npub fn ").replace("#[allow(unused_variables)]\npub fn f(", "pub fn f(")
    } else {
        source
    };
    let source = if imports == 0 {
        ["adv_fn!", "adv_fn_obj!", "adv_dvec!"].iter().fold(source, |s, m| s.replace(m, &format!("adv::{}", m)))
    } else {
        source
    };
    Def { prog, classes, scaled, excess, source }
}

fn dv<T: Clone + std::fmt::Debug + PartialEq + 'static>(v: &[T]) -> DVector<T> {
    DVector::from_column_slice(v)
}

pub fn check(c: &DefCase, e: &Entry) -> Res {
    let d = plan(c);
    let p = &d.prog;
    let (n, m) = (p.n, p.m());
    let dx = fit(&c.dx, n);
    let scales: &[f64] = if d.scaled { &[2.0, -0.5] } else { &[1.0] };
    let objects: Vec<Box<dyn Function>> =
        scales.iter().map(|s| total("making the function object", || (e.object)(*s))).collect::<Result<_, _>>()?;
    for f in &objects {
        ensure!(f.n() == n && f.m() == m, "the function object reports {} -> {}, declared {} -> {}", f.n(), f.m(), n, m);
        ensure!(f.chain().is_none(), "the function object is a chain");
    }
    let active = |x: &[f64]| dv(&x.iter().zip(&dx).map(|(a, b)| ADouble::new(*a, *b)).collect::<Vec<_>>());
    for x in &c.pts {
        let x = fit(x, n);
        if d.excess != 0 {
            for (s, f) in scales.iter().zip(&objects) {
                ensure!(caught(|| (e.plain)(dv(&x), *s)).is_none(), "on plain floats a result of the wrong length is accepted");
                ensure!(caught(|| (e.active)(active(&x), *s)).is_none(), "on active numbers a result of the wrong length is accepted");
                ensure!(caught(|| f.eval(active(&x))).is_none(), "the function object accepts a result of the wrong length");
                ensure!(caught(|| f.tape(&dv(&x)).num_deps()).is_none(), "the function object tapes a result of the wrong length");
            }
            continue;
        }
        let want = ref_delta(p, &x, &dx, U64).expect("valid");
        for (s, f) in scales.iter().zip(&objects) {
            let s = *s;
            let plain = total("the function on plain floats", || (e.plain)(dv(&x), s))?;
            let act = total("the function on active numbers", || (e.active)(active(&x), s))?;
            let obj = total("evaluating the function object", || f.eval(active(&x)))?;
            let flt = total("evaluating the function object on floats", || f.eval_float(dv(&x)))?;
            let mut tape = total("taping the function object", || f.tape(&dv(&x)))?;
            ensure!(
                plain.len() == m && act.len() == m && obj.len() == m && flt.len() == m && tape.num_deps() == m && tape.num_indeps() == n,
                "lengths of the results: {} {} {} {} {}, want {}", plain.len(), act.len(), obj.len(), flt.len(), tape.num_deps(), m
            );
            ensure!(tape.num_abs() == p.num_abs(), "the tape has {} absolute values, want {}", tape.num_abs(), p.num_abs());
            let recorded = tape.y();
            for z in &c.pts {
                // at another point first
                let z = fit(z, n);
                let want = ref_delta(p, &z, &dx, U64).expect("valid");
                total("replay", || tape.zero_order(&dv(&z)))?;
                let dy = total("forward sweep", || tape.first_order_forward(&dv(&dx)))?;
                for (j, r) in p.outs.iter().enumerate() {
                    let q = &want[*r];
                    ensure!(close(tape.y()[j], s * q.v, s.abs() * q.ev), "the tape at {:?} gives {:?} as result {}, want {:?}", z, tape.y()[j], j, s * q.v);
                    ensure!(close(dy[j], s * q.g[0], s.abs() * q.eg[0]), "the tape at {:?} gives {:?} as derivative of result {}, want {:?}", z, dy[j], j, s * q.g[0]);
                }
            }
            for (j, r) in p.outs.iter().enumerate() {
                let q = &want[*r];
                let (v, ev) = (s * q.v, s.abs() * q.ev);
                for (how, got) in [
                    ("on plain floats", plain[j]),
                    ("on active numbers", act[j].value()),
                    ("by the function object", obj[j].value()),
                    ("by the function object on floats", flt[j]),
                    ("as recorded", recorded[j]),
                ] {
                    ensure!(close(got, v, ev), "result {} at {:?} {} is {:?}, want {:?} (scale {})", j, x, how, got, v, s);
                }
                let (g, eg) = (s * q.g[0], s.abs() * q.eg[0]);
                for (how, got) in [("function", act[j].dvalue()), ("function object", obj[j].dvalue())] {
                    ensure!(close(got, g, eg), "derivative of result {} at {:?} by the {} is {:?}, want {:?}", j, x, how, got, g);
                }
            }
        }
        // inputs of another length
        for k in [n + 1, n.saturating_sub(1), 0, 2 * n] {
            if k != n {
                let y = fit(&x, k);
                let dy: Vec<ADouble> = y.iter().map(|v| ADouble::from(*v)).collect();
                ensure!(caught(|| (e.plain)(dv(&y), scales[0])).is_none(), "on plain floats {} inputs are accepted, declared {}", k, n);
                ensure!(caught(|| (e.active)(dv(&dy), scales[0])).is_none(), "on active numbers {} inputs are accepted, declared {}", k, n);
                ensure!(caught(|| objects[0].eval(dv(&dy))).is_none(), "the function object accepts {} inputs, declared {}", k, n);
                ensure!(caught(|| objects[0].tape(&dv(&y)).num_deps()).is_none(), "the function object tapes {} inputs, declared {}", k, n);
            }
        }
    }
    Ok(())
}

/// The generated program: check all or one of the definitions, report as JSON lines
#[allow(dead_code)]
pub fn main_generated(entries: Vec<Entry>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let cases: Vec<DefCase> = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    assert_eq!(cases.len(), entries.len());
    let only: Option<usize> = args.get(2).map(|s| s.parse().unwrap());
    for (k, (c, e)) in cases.iter().zip(&entries).enumerate() {
        if only.map_or(true, |o| o == k) {
            let r = match caught(|| check(c, e)) {
                Some(r) => r,
                None => Err(format!("panicked: {}", last_panic())),
            };
            println!("{}", serde_json::json!({"case": k, "error": r.err()}));
        }
    }
}
