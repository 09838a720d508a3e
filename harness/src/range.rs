//! Derivatives of single operations at arguments of any magnitude, as long as the value and the
//! derivative themselves are ordinary numbers (part of C03, C06-C09)
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::tapes::{dv, pools, record};
use advantage as adv;
use adv::drivers::*;
use adv::{AFloat, Tape};
use nalgebra::DMatrix;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RangeCase {
    /// operation, operand, operand (inputs or numbers)
    ops: Vec<(u8, u8, u8)>,
    x: Vec<f64>,
    dx: Vec<f64>,
    /// recorded here, then replayed at x
    at: Option<Vec<f64>>,
    p: i32,
}

fn any_magnitude() -> BoxedStrategy<f64> {
    let e = prop_oneof![3 => -280i32..280, 2 => -160i32..160, 2 => -20i32..20];
    (e, 1.0f64..10.0, any::<bool>()).prop_map(|(e, m, s)| m * 10f64.powi(e) * if s { 1.0 } else { -1.0 }).boxed()
}

/// close to one or a quarter turn
fn near_special() -> BoxedStrategy<f64> {
    (prop_oneof![1 => -14i32..-1, 1 => -6i32..-1], 1.0f64..10.0, any::<(bool, bool)>(), prop_oneof![2 => Just(0i32), 1 => 1i32..40])
        .prop_map(|(e, m, (s, t), turns)| {
            let d = m * 10f64.powi(e) * if t { 1.0 } else { -1.0 };
            let at = if turns > 0 { turns as f64 * std::f64::consts::FRAC_PI_2 } else { 1.0 };
            (at + d) * if s { 1.0 } else { -1.0 }
        })
        .boxed()
}

pub fn range_case() -> BoxedStrategy<RangeCase> {
    (
        pvec(any::<(u8, u8, u8)>(), 1..8),
        pvec(prop_oneof![4 => any_magnitude(), 1 => near_special()], 1..5),
        pvec(prop_oneof![4 => 0.125f64..8.0, 2 => -8.0f64..-0.125, 1 => Just(0.0)], 4),
        prop::option::of(pvec(0.5f64..3.0, 4)),
        -4i32..=4,
    )
        .prop_map(|(ops, x, dx, at, p)| RangeCase { ops, x, dx, at, p })
        .boxed()
}

/// value and the two partial derivatives
fn rule(i: &Ins, x: &[f64]) -> Option<(f64, f64, f64)> {
    let v = |o: &Opd| match *o {
        Opd::R(r) => x[r],
        Opd::F(c) | Opd::C(c) => c,
    };
    Some(match i {
        Ins::Bin(f, a, b, _) => {
            let (p, q) = (v(a), v(b));
            match f {
                Bin::Add => (p + q, 1.0, 1.0),
                Bin::Sub => (p - q, 1.0, -1.0),
                Bin::Mul => (p * q, q, p),
                Bin::Div => (p / q, 1.0 / q, -(p / q) / q),
                Bin::Powf if p > 0.0 => {
                    let l = p.ln();
                    let f = (q * l).exp();
                    (f, q * ((q - 1.0) * l).exp(), l * f)
                }
                _ => return None,
            }
        }
        Ins::Un(f, a) => {
            let a = x[*a];
            let (f, d) = match f {
                Un::Neg => (-a, -1.0),
                Un::Exp => (a.exp(), a.exp()),
                Un::Exp2 => (a.exp2(), std::f64::consts::LN_2 * a.exp2()),
                Un::Ln if a > 0.0 => (a.ln(), 1.0 / a),
                Un::Log2 if a > 0.0 => (a.log2(), 1.0 / a / std::f64::consts::LN_2),
                Un::Log10 if a > 0.0 => (a.log10(), 1.0 / a / std::f64::consts::LN_10),
                Un::Sqrt if a > 0.0 => (a.sqrt(), 0.5 / a.sqrt()),
                Un::Cbrt => (a.cbrt(), 1.0 / 3.0 / a.cbrt() / a.cbrt()),
                Un::Atan => (a.atan(), if a.abs() > 1.0 { 1.0 / a / (a + 1.0 / a) } else { 1.0 / (1.0 + a * a) }),
                Un::Recip => (1.0 / a, -(1.0 / a) / a),
                Un::ToDeg => (a.to_degrees(), 1f64.to_degrees()),
                Un::ToRad => (a.to_radians(), 1f64.to_radians()),
                Un::Powi(0) => (1.0, 0.0),
                Un::Powi(n) => {
                    let m = |k: i32| {
                        let s = if k % 2 != 0 { a.signum() } else { 1.0 };
                        s * (k as f64 * a.abs().ln()).exp()
                    };
                    (m(*n), *n as f64 * m(*n - 1))
                }
                Un::Abs => (a.abs(), a.signum()),
                // 1 - a^2 without cancellation
                Un::Asin if a.abs() < 1.0 - 1e-14 => (a.asin(), 1.0 / ((1.0 - a) * (1.0 + a)).sqrt()),
                Un::Acos if a.abs() < 1.0 - 1e-14 => (a.acos(), -1.0 / ((1.0 - a) * (1.0 + a)).sqrt()),
                Un::Sin if a.abs() < 1e6 => (a.sin(), a.cos()),
                Un::Cos if a.abs() < 1e6 => (a.cos(), -a.sin()),
                Un::Tan if a.abs() < 1e6 && a.cos().abs() > 1e-7 => (a.tan(), 1.0 / a.cos() / a.cos()),
                _ => return None,
            };
            (f, d, 0.0)
        }
        _ => return None,
    })
}

/// relative error of the derivative that rounding of an intermediate result may cause
fn slack(i: &Ins, x: &[f64]) -> f64 {
    const E: f64 = 8.0 * f64::EPSILON;
    TOL + match i {
        Ins::Un(Un::Asin | Un::Acos, a) => E / ((1.0 - x[*a]) * (1.0 + x[*a])),
        Ins::Un(Un::Sin | Un::Tan, a) => E * x[*a].abs().max(1.0) / x[*a].cos().abs(),
        Ins::Un(Un::Cos, a) if x[*a].abs() > 1.0 => E * x[*a].abs() / x[*a].sin().abs(),
        _ => 0.0,
    }
}

fn build(c: &RangeCase, abs: bool) -> (Prog, Vec<f64>, Vec<f64>) {
    let n = c.x.len();
    let dx = fit(&c.dx, n);
    let ordinary = |v: f64| v == 0.0 || (v.abs() > 1e-270 && v.abs() < 1e270);
    let mut ins: Vec<Ins> = vec![];
    for (op, a, b) in &c.ops {
        let opd = |s: u8| {
            let k = s as usize / 4 % n;
            match s % 4 {
                0 if s >= 128 => Opd::F(c.x[k]),
                1 if s >= 192 => Opd::C(c.x[k]),
                _ => Opd::R(k),
            }
        };
        let a = *a as usize % n;
        let i = match op % 29 {
            0 => Ins::Bin(Bin::Add, Opd::R(a), opd(*b), *b > 127),
            1 => Ins::Bin(Bin::Sub, Opd::R(a), opd(*b), *b > 127),
            2 | 3 => Ins::Bin(Bin::Mul, Opd::R(a), opd(*b), *b > 127),
            4 | 5 | 6 => Ins::Bin(Bin::Div, Opd::R(a), opd(*b), *b > 127),
            7 => Ins::Bin(Bin::Div, opd(*b), Opd::R(a), false),
            8 => Ins::Bin(Bin::Powf, Opd::R(a), Opd::C(c.p as f64 / 2.0), false),
            9 => Ins::Bin(Bin::Powf, Opd::R(a), opd(*b), false),
            10 => Ins::Un(Un::Powi(c.p), a),
            11 => Ins::Un(Un::Exp, a),
            12 => Ins::Un(Un::Ln, a),
            13 => Ins::Un(Un::Sqrt, a),
            14 => Ins::Un(Un::Cbrt, a),
            15 => Ins::Un(Un::Atan, a),
            16 => Ins::Un(Un::Recip, a),
            17 => Ins::Un(Un::ToDeg, a),
            18 => Ins::Un(Un::ToRad, a),
            19 => Ins::Un(Un::Log2, a),
            20 => Ins::Un(Un::Log10, a),
            21 => Ins::Un(Un::Exp2, a),
            22 => Ins::Un(Un::Neg, a),
            24 => Ins::Un(Un::Asin, a),
            25 => Ins::Un(Un::Acos, a),
            26 => Ins::Un(Un::Sin, a),
            27 => Ins::Un(Un::Cos, a),
            28 => Ins::Un(Un::Tan, a),
            _ => Ins::Un(Un::Abs, a),
        };
        if i.is_abs() && (!abs || dx[a].abs() > 0.5 * c.x[a].abs()) {
            continue;
        }
        // the result and everything a derivative is made of
        let Some((f, p, q)) = rule(&i, &c.x) else { continue };
        let r = i.regs();
        let terms = [f, p, q, p * dx[r[0]], q * r.get(1).map_or(0.0, |r| dx[*r])];
        if terms.iter().all(|t| ordinary(*t)) {
            ins.push(i);
        }
    }
    let outs = (n..n + ins.len()).collect();
    (Prog { n, ins, outs }, c.x.clone(), dx)
}

pub enum How {
    Tapeless,
    Forward,
    Reverse,
    Drivers,
    Linearized,
}

const TOL: f64 = 1e-10;

pub fn check_range(c: &RangeCase, o: &mut Obs, how: How) -> Res {
    let (p, x, dx) = build(c, matches!(how, How::Linearized));
    if p.ins.is_empty() {
        return o.discard("no operation is in range");
    }
    let n = p.n;
    let m = p.ins.len();
    o.nontrivial = x.iter().any(|v| v.abs() > 1e20 || v.abs() < 1e-20) || p.ins.iter().any(|i| slack(i, &x) > 2.0 * TOL);
    o.class_if(p.ins.iter().any(|i| matches!(i, Ins::Bin(Bin::Div, ..))), "quotient");
    o.class_if(p.num_abs() > 0, "abs");
    o.class_if(p.ins.iter().any(|i| slack(i, &x) > 1e-9), "ill-conditioned slope");
    o.class_if(c.at.is_some(), "recorded elsewhere");
    let show = || format!("{} at {:?} direction {:?}", p.show(), x, dx);
    o.sample(&show);
    // Jacobian and directional derivatives, each with tolerance
    let mut jac = vec![vec![(0.0f64, 0.0f64); n]; m];
    for (k, i) in p.ins.iter().enumerate() {
        let (_, a, b) = rule(i, &x).unwrap();
        let parts: Vec<(usize, f64)> = match i {
            Ins::Bin(_, l, r, _) => [(l, a), (r, b)]
                .iter()
                .filter_map(|(o, d)| if let Opd::R(r) = o { Some((*r, *d)) } else { None })
                .collect(),
            Ins::Un(_, r) => vec![(*r, a)],
            _ => unreachable!(),
        };
        for (r, d) in parts {
            jac[k][r].0 += d;
            jac[k][r].1 += slack(i, &x) * d.abs();
        }
    }
    let dir = |k: usize| {
        let j = &jac[k];
        (0..n).fold((0.0, 0.0), |(v, e), i| (v + j[i].0 * dx[i], e + j[i].1 * dx[i].abs()))
    };
    let ok = |g: f64, (w, e): (f64, f64)| (g - w).abs() <= e + 1e-300;
    let tape = |at: &Option<Vec<f64>>| {
        let mut t = record::<f64>(&p, &at.as_ref().map_or(x.clone(), |a| fit(a, n)), false);
        if at.is_some() {
            t.zero_order(&dv(&x));
        }
        t
    };
    let tapeless = || {
        let xs: Vec<AFloat<f64>> = (0..n).map(|i| AFloat::new(x[i], dx[i])).collect();
        run_af(&p, &xs)[n..].iter().map(|r| r.dvalue()).collect::<Vec<f64>>()
    };
    let forward = || tape(&c.at).first_order_forward(&dv(&dx)).as_slice().to_vec();
    let results: Vec<(&str, Vec<f64>)> = match how {
        How::Tapeless => vec![("carried along", total("evaluation", tapeless)?)],
        How::Forward => vec![("forward sweep", total("forward sweep", forward)?)],
        How::Linearized => {
            vec![("carried along", total("evaluation", tapeless)?), ("forward sweep", total("forward sweep", forward)?)]
        }
        How::Reverse => {
            let t = total("recording", || tape(&c.at))?;
            for k in 0..m {
                let w: Vec<f64> = (0..m).map(|i| (i == k) as u8 as f64).collect();
                let r = total("reverse sweep", || t.first_order_reverse(&dv(&w)))?;
                for i in 0..n {
                    ensure!(
                        ok(r[i], jac[k][i]),
                        "reverse sweep: derivative of output {} by input {} is {:?}, want {:?}; {}", k, i, r[i], jac[k][i].0, show()
                    );
                }
            }
            vec![]
        }
        How::Drivers => {
            let f = PF(p.clone());
            let pool = &pools()[c.dx.len() % 3];
            let a: DMatrix<f64> = total("jacobian_forward", || pool.install(|| jacobian_forward(&f, &dv(&x))))?;
            let t = total("recording", || tape(&c.at))?;
            let b: DMatrix<f64> = total("jacobian_reverse", || pool.install(|| jacobian_reverse(&t)))?;
            for (how, g) in [("forward", &a), ("reverse", &b)] {
                for k in 0..m {
                    for i in 0..n {
                        ensure!(
                            ok(g[(k, i)], jac[k][i]),
                            "{} Jacobian entry ({}, {}) is {:?}, want {:?}; {}", how, k, i, g[(k, i)], jac[k][i].0, show()
                        );
                    }
                }
            }
            vec![]
        }
    };
    for (how, r) in results {
        for k in 0..m {
            ensure!(ok(r[k], dir(k)), "{}: derivative of output {} is {:?}, want {:?}; {}", how, k, r[k], dir(k).0, show());
        }
    }
    Ok(())
}
