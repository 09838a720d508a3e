//! Long recordings: up to some hundred thousand operations, compared with dual numbers
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::tapes::{build_tape, dv, well_formed};
use advantage as adv;
use adv::drivers::*;
use adv::{AContext, AFloat, Tape};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const N: usize = 4;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    n: usize,
    /// doublings of the length, then the rest
    scale: u8,
    rest: u32,
    seed: u64,
    abs: bool,
    /// the last input appears late, and is the only one to change
    #[serde(default)]
    late: bool,
    x: Vec<f64>,
    x2: Vec<f64>,
    w: Vec<f64>,
    outs: Vec<u32>,
}

/// `most`: upper bound of the number of operations is 2^most
pub fn long_case(most: u8) -> BoxedStrategy<LongCase> {
    let unit = || (-1000i32..=1000).prop_map(|v| v as f64 / 1000.0);
    (
        1..=N,
        5..most,
        any::<u32>(),
        any::<u64>(),
        any::<(bool, bool)>(),
        proptest::collection::vec(unit(), 2 * N),
        proptest::collection::vec(unit(), 8),
        proptest::collection::vec(any::<u32>(), 0..5),
    )
        .prop_map(|(n, scale, rest, seed, (abs, late), mut x, w, outs)| {
            if late {
                for i in 0..n - 1 {
                    x[N + i] = x[i];
                }
            }
            LongCase { n, scale, rest, seed, abs, late, x: x[..n].to_vec(), x2: x[N..N + n].to_vec(), w, outs }
        })
        .boxed()
}

struct Rng(u64);

impl Rng {
    fn next(&mut self, below: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % below
    }
}

/// Rotations of a few states, some contractions of them, sums of all that happens
fn program(c: &LongCase) -> Prog {
    let len = (1usize << c.scale) + c.rest as usize % (1usize << c.scale);
    let n = c.n;
    let mut g = Rng(c.seed);
    let mut ins: Vec<Ins> = vec![];
    fn push(ins: &mut Vec<Ins>, n: usize, i: Ins) -> usize {
        ins.push(i);
        n + ins.len() - 1
    }
    macro_rules! op {
        ($i:expr) => {
            push(&mut ins, n, $i)
        };
    }
    let r = Opd::R;
    let mut s: Vec<usize> = (0..4).map(|k| k % if c.late && n > 1 { n - 1 } else { n }).collect();
    let mut sums: Vec<usize> = (0..3).map(|k| op!(Ins::Const(k as f64 / 4.0))).collect();
    let angles: Vec<(f64, f64)> = [0.3f64, 0.7, 1.1, 2.0, 4.0].iter().map(|a| (a.cos(), a.sin())).collect();
    while ins.len() < len {
        let i = g.next(4);
        let j = (i + 1 + g.next(3)) % 4;
        let assign = g.next(2) == 1;
        match g.next(20) {
            0..=11 => {
                let (c, d) = angles[g.next(5)];
                let a = op!(Ins::Bin(Bin::Mul, r(s[i]), Opd::F(c), assign));
                let b = op!(Ins::Bin(Bin::Mul, Opd::F(d), r(s[j]), false));
                let p = op!(Ins::Bin(Bin::Add, r(a), r(b), assign));
                let a = op!(Ins::Bin(Bin::Mul, r(s[j]), Opd::F(c), false));
                let b = op!(Ins::Bin(Bin::Mul, r(s[i]), Opd::F(d), assign));
                let q = op!(Ins::Bin(Bin::Sub, r(a), r(b), false));
                s[i] = p;
                s[j] = q;
            }
            12 => s[i] = op!(Ins::Un(Un::Sin, s[i])),
            13 => s[i] = op!(Ins::Un(Un::Atan, s[i])),
            14 => {
                let a = op!(Ins::Un(Un::Cos, s[j]));
                s[i] = op!(Ins::Bin(Bin::Mul, r(s[i]), r(a), assign));
            }
            15 if c.abs => s[i] = op!(Ins::Un(Un::Abs, s[i])),
            16 | 17 => {
                // all inputs, or all but the last
                let pool = if c.late && n > 1 && ins.len() < len / 5 * 4 { n - 1 } else { n };
                let a = op!(Ins::Bin(Bin::Add, r(s[i]), r(g.next(pool)), assign));
                s[i] = op!(Ins::Bin(Bin::Div, r(a), Opd::F(2.0), false));
            }
            _ => {
                let k = g.next(3);
                sums[k] = op!(Ins::Bin(Bin::Add, r(sums[k]), r(s[i]), assign));
            }
        }
    }
    let regs = n + ins.len();
    let mut outs = sums;
    outs.extend(c.outs.iter().map(|o| *o as usize % regs));
    Prog { n, ins, outs }
}

type Dual = (f64, [f64; N]);

fn duals(p: &Prog, x: &[f64]) -> Vec<Dual> {
    let mut r: Vec<Dual> = (0..p.n)
        .map(|i| {
            let mut g = [0.0; N];
            g[i] = 1.0;
            (x[i], g)
        })
        .collect();
    for i in &p.ins {
        let chain = |a: &Dual, v: f64, s: f64| (v, a.1.map(|g| s * g));
        let v = match *i {
            Ins::Const(c) => (c, [0.0; N]),
            Ins::Un(Un::Sin, a) => chain(&r[a], r[a].0.sin(), r[a].0.cos()),
            Ins::Un(Un::Cos, a) => chain(&r[a], r[a].0.cos(), -r[a].0.sin()),
            Ins::Un(Un::Atan, a) => chain(&r[a], r[a].0.atan(), 1.0 / (1.0 + r[a].0 * r[a].0)),
            Ins::Un(Un::Abs, a) => chain(&r[a], r[a].0.abs(), if r[a].0 < 0.0 { -1.0 } else { 1.0 }),
            Ins::Bin(b, x, y, _) => {
                let get = |o: Opd| match o {
                    Opd::R(a) => r[a],
                    Opd::F(c) | Opd::C(c) => (c, [0.0; N]),
                };
                let (a, b_) = (get(x), get(y));
                let mut g = [0.0; N];
                for k in 0..N {
                    g[k] = match b {
                        Bin::Add => a.1[k] + b_.1[k],
                        Bin::Sub => a.1[k] - b_.1[k],
                        Bin::Mul => a.1[k] * b_.0 + a.0 * b_.1[k],
                        Bin::Div => a.1[k] / b_.0,
                        _ => unreachable!(),
                    };
                }
                let v = match b {
                    Bin::Add => a.0 + b_.0,
                    Bin::Sub => a.0 - b_.0,
                    Bin::Mul => a.0 * b_.0,
                    _ => a.0 / b_.0,
                };
                (v, g)
            }
            _ => unreachable!(),
        };
        r.push(v);
    }
    r
}

#[derive(Clone, Copy, PartialEq)]
pub enum Long {
    Replay,
    Snapshot,
    Forward,
    Reverse,
    Drivers,
    HandBuilt,
}

pub fn check_long(c: &LongCase, o: &mut Obs, what: Long) -> Res {
    let mut c = c.clone();
    c.abs &= matches!(what, Long::Replay | Long::Snapshot | Long::HandBuilt);
    let c = &c;
    let p = program(c);
    let (n, m) = (p.n, p.m());
    let (d, d2) = (duals(&p, &c.x), duals(&p, &c.x2));
    // no chaos
    let tame = |d: &[Dual]| d.iter().all(|v| v.0.abs() < 1e6 && v.1.iter().all(|g| g.abs() < 1e6));
    if !tame(&d) || !tame(&d2) {
        return o.discard("too sensitive");
    }
    let tol = 1e-6;
    let len = p.ins.len();
    o.nontrivial = len > 256;
    o.class_if(c.late && n > 1, "an input that appears late");
    o.class_if(len > 4096, "more than 4096 instructions");
    o.class_if(len > 65536, "more than 65536 instructions");
    o.sample(|| format!("{} instructions, {:?}", len, c));
    let near = |a: f64, b: f64| (a - b).abs() <= tol * (1.0 + b.abs());
    let values = |t: &dyn Tape, d: &[Dual], how: &str| -> Res {
        let y = t.y();
        ensure!(y.len() == m, "{} outputs", y.len());
        for (k, r) in p.outs.iter().enumerate() {
            ensure!(near(y[k], d[*r].0), "{}: output {} (register {} of {}) is {:?}, want {:?}", how, k, r, p.nregs(), y[k], d[*r].0);
        }
        Ok(())
    };
    let dir: Vec<f64> = fit(&c.w, n);
    let forward = |t: &dyn Tape, d: &[Dual], how: &str| -> Res {
        if c.abs {
            // increments through absolute values are no slopes
            return Ok(());
        }
        let dy = total("forward sweep", || t.first_order_forward(&dv(&dir)))?;
        ensure!(dy.len() == m, "{} entries", dy.len());
        for (k, r) in p.outs.iter().enumerate() {
            let want: f64 = (0..n).map(|i| d[*r].1[i] * dir[i]).sum();
            ensure!(near(dy[k], want), "{}: forward sweep entry {} (register {} of {}) is {:?}, want {:?}", how, k, r, p.nregs(), dy[k], want);
        }
        Ok(())
    };
    let reverse = |t: &dyn Tape, d: &[Dual], how: &str| -> Res {
        let w = fit(&c.w, m);
        let xbar = total("reverse sweep", || t.first_order_reverse(&dv(&w)))?;
        for i in 0..n {
            let want: f64 = p.outs.iter().enumerate().map(|(k, r)| w[k] * d[*r].1[i]).sum();
            ensure!(near(xbar[i], want), "{}: reverse sweep entry {} is {:?}, want {:?} ({} registers)", how, i, xbar[i], want, p.nregs());
        }
        Ok(())
    };
    if what == Long::HandBuilt {
        let perm = [c.seed as u32, (c.seed >> 32) as u32, c.rest];
        let mut t = build_tape(&p, &perm, &[c.scale, 2, 1, 0, 1]);
        total("zero_order", || t.zero_order(&dv(&c.x)))?;
        ensure!(t.num_abs() == p.num_abs(), "num_abs {}", t.num_abs());
        values(&t, &d, "hand-built")?;
        let t: Box<dyn Tape> = Box::new(t);
        forward(&*t, &d, "hand-built")?;
        if p.num_abs() == 0 {
            reverse(&*t, &d, "hand-built")?;
        }
        return Ok(());
    }
    let mut ctx = AContext::new();
    let mut xs: Vec<AFloat<f64>> = c.x.iter().map(|v| AFloat::new(*v, 0.0)).collect();
    xs.iter_mut().for_each(|x| ctx.set_indep(x));
    let r = total("recording", || run_af(&p, &xs))?;
    p.outs.iter().for_each(|o| ctx.set_dep(&r[*o]));
    let mut t = ctx.tape();
    match what {
        Long::Replay => {
            values(&t, &d, "recorded")?;
            for (x, d) in [(&c.x2, &d2), (&c.x, &d)] {
                total("zero_order", || t.zero_order(&dv(x)))?;
                ensure!(t.x() == dv(x), "x");
                values(&t, d, "replayed")?;
                forward(&t, d, "replayed")?;
            }
        }
        Long::Snapshot => {
            well_formed(&t)?;
            ensure!(t.num_indeps() == n && t.x() == dv(&c.x), "inputs");
            ensure!(t.num_abs() == p.num_abs(), "num_abs {} want {}", t.num_abs(), p.num_abs());
            values(&t, &d, "recorded")?;
            let ops: Vec<_> = t.ops_iter().collect();
            let mut copy = t.clone();
            let vals = t.values().to_vec();
            // going on, and replaying a copy
            let more = r[r.len() - 1] + xs[0];
            ctx.set_dep(&more);
            total("zero_order", || copy.zero_order(&dv(&c.x2)))?;
            values(&copy, &d2, "replayed copy")?;
            ensure!(t.values() == &vals[..] && t.num_deps() == m && t.ops_iter().eq(ops.iter().copied()), "the tape changed");
            let whole = ctx.tape();
            ensure!(whole.num_deps() == m + 1, "the later tape has {} outputs", whole.num_deps());
            ensure!(near(whole.y()[m], d[r.len() - 1].0 + c.x[0]), "later output");
            values_prefix(&whole, &t)?;
        }
        Long::Forward => forward(&t, &d, "recorded")?,
        Long::Reverse => reverse(&t, &d, "recorded")?,
        Long::Drivers => {
            let f = PF(p.clone());
            let fw = total("jacobian_forward", || jacobian_forward(&f, &dv(&c.x)))?;
            let rv = total("jacobian_reverse", || jacobian_reverse(&t))?;
            for (how, jac) in [("forward", &fw), ("reverse", &rv)] {
                ensure!(jac.nrows() == m && jac.ncols() == n, "{} driver: {}x{}", how, jac.nrows(), jac.ncols());
                for (k, r) in p.outs.iter().enumerate() {
                    for i in 0..n {
                        ensure!(near(jac[(k, i)], d[*r].1[i]), "{} driver: ({}, {}) is {:?}, want {:?}", how, k, i, jac[(k, i)], d[*r].1[i]);
                    }
                }
            }
        }
        Long::HandBuilt => unreachable!(),
    }
    Ok(())
}

/// the outputs of the earlier tape come first
fn values_prefix(later: &dyn Tape, earlier: &dyn Tape) -> Res {
    let (a, b) = (later.y(), earlier.y());
    ensure!(b.iter().zip(a.iter()).all(|(x, y)| x == y), "the later tape has other outputs");
    Ok(())
}
