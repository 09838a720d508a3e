//! C09-C14: piecewise linearization, abs-normal form, generalized Jacobian
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::tapes::{dv, hcat, pools, record};
use advantage as adv;
use adv::drivers::*;
use adv::{AFloat, Function, Tape};
use nalgebra::{DMatrix, DVector};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlCase {
    pub raw: Raw,
    pub x: Vec<f64>,
    pub dx: Vec<f64>,
    /// which increments cancel the input (ties), and further increments
    pub cancel: u8,
    pub more: Vec<Vec<f64>>,
    pub bits: Vec<u8>,
    pub mats: Vec<i8>,
    pub k: u8,
    pub pool: u8,
    /// piecewise linear programs: units (a power of two) of the whole case
    #[serde(default)]
    pub unit: i16,
    /// and a second program next to it in other units: program, x, dx, units, order
    #[serde(default)]
    pub side: Option<(Raw, Vec<f64>, Vec<f64>, i16, u32)>,
    /// instead of `raw`: switching variables nested in each other at different scales
    #[serde(default)]
    pub nest: Option<Vec<Layer>>,
}

/// previous result times 2^scale, plus or minus another register times 2^other_scale; then abs,
/// max or min
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layer {
    pub op: u8,
    pub scale: i8,
    pub other: u16,
    pub other_scale: i8,
}

fn layer() -> BoxedStrategy<Layer> {
    let scale = || prop_oneof![3 => -3i8..=3, 2 => -40i8..=10, 1 => Just(0i8)];
    (any::<u8>(), scale(), any::<u16>(), scale())
        .prop_map(|(op, scale, other, other_scale)| Layer { op, scale, other, other_scale })
        .boxed()
}

/// nested switching variables whose influence on each other is far from one
fn nested(k: u8) -> BoxedStrategy<PlCase> {
    (pl_case(1..5, 0..1, 1..5, false), pvec(layer(), 1..8), 0..=k)
        .prop_map(|(mut c, l, k)| {
            c.nest = Some(l);
            c.k = k;
            c
        })
        .boxed()
}

/// switching variables nested up to a hundred levels deep, with exact values
fn deep(k: u8) -> BoxedStrategy<PlCase> {
    let layer = (any::<u8>(), any::<u16>(), prop_oneof![4 => Just(0i8), 1 => -2i8..=1])
        .prop_map(|(op, other, other_scale)| Layer { op, scale: 0, other: other | 1, other_scale });
    (pl_case(1..5, 0..1, 1..4, true), prop_oneof![pvec(layer.clone(), 1..40), pvec(layer, 30..130)], 0..=k, any::<bool>())
        .prop_map(|(mut c, mut l, k, abs)| {
            if abs {
                // signs depend on all previous ones
                l.iter_mut().for_each(|l| l.op |= 4);
            }
            c.nest = Some(l);
            c.k = k;
            c
        })
        .boxed()
}

fn nest_prog(n: usize, layers: &[Layer], outs: &[u16]) -> Prog {
    let mut ins: Vec<Ins> = vec![];
    let mut cur = 0;
    let mut tops = vec![];
    let scaled = |ins: &mut Vec<Ins>, r: usize, k: i8| {
        if k == 0 {
            return r;
        }
        ins.push(Ins::Bin(Bin::Mul, Opd::R(r), Opd::F(2f64.powi(k as i32)), false));
        n + ins.len() - 1
    };
    for l in layers {
        // mostly inputs, so that columns of the forms are separate
        let pool = if l.other & 3 == 0 { n + ins.len() } else { n };
        let o = (l.other as usize >> 2) % pool;
        let a = scaled(&mut ins, cur, l.scale);
        let b = scaled(&mut ins, o, l.other_scale);
        let op = [Bin::Add, Bin::Sub][l.op as usize & 1];
        let last = match l.op >> 1 & 3 {
            0 => Ins::Bin(Bin::Max, Opd::R(a), Opd::R(b), false),
            1 => Ins::Bin(Bin::Min, Opd::R(b), Opd::R(a), false),
            _ => {
                ins.push(Ins::Bin(op, Opd::R(a), Opd::R(b), false));
                Ins::Un(Un::Abs, n + ins.len() - 1)
            }
        };
        ins.push(last);
        cur = n + ins.len() - 1;
        tops.push(cur);
    }
    let outs = outs.iter().map(|o| tops[tops.len() - 1 - *o as usize % tops.len().min(3)]).collect();
    Prog { n, ins, outs }
}

fn units() -> BoxedStrategy<i16> {
    prop_oneof![
        4 => Just(0i16),
        3 => -64i16..=64,
        1 => prop::sample::select(vec![-300i16, 300, -30, -53, -10, 52]),
    ]
    .boxed()
}

/// n, len, m; exact values or general ones
pub fn pl_case(
    n: std::ops::Range<usize>,
    len: std::ops::Range<usize>,
    m: std::ops::Range<usize>,
    exact: bool,
) -> BoxedStrategy<PlCase> {
    let v = move || if exact { exact_vals(4) } else { vals(4) };
    (
        raw(n, len, m),
        v(),
        v(),
        prop_oneof![2 => Just(0u8), 1 => any::<u8>(), 1 => Just(255u8)],
        pvec(v(), 0..3),
        pvec(any::<u8>(), 0..4),
        pvec(-3i8..=3, 0..24),
        0u8..5,
        0u8..3,
        (units(), prop::option::weighted(0.3, (raw(1usize..3, 1..8, 0..3usize), exact_vals(3), exact_vals(3), units(), any::<u32>()))),
    )
        .prop_map(|(raw, x, dx, cancel, more, bits, mats, k, pool, (unit, side))| PlCase { raw, x, dx, cancel, more, bits, mats, k, pool, unit, side, nest: None })
        .boxed()
}

pub struct Pl {
    pub p: Prog,
    pub x: Vec<f64>,
    pub dx: Vec<f64>,
    pub more: Vec<Vec<f64>>,
    /// below, a switching variable is too close to zero (floating-point programs)
    pub floor: f64,
}

impl PlCase {
    pub fn points(&self) -> (Vec<f64>, Vec<f64>) {
        let n = self.raw.n;
        let x = fit(&self.x, n);
        let mut dx = fit(&self.dx, n);
        for i in 0..n {
            if self.cancel >> (i % 8) & 1 == 1 {
                dx[i] = -x[i];
            }
        }
        (x, dx)
    }
    pub fn build(&self, profile: Profile) -> Pl {
        let n = self.raw.n;
        let (x, dx) = self.points();
        let mut more: Vec<Vec<f64>> = self.more.iter().map(|d| fit(d, n)).collect();
        if let Some(layers) = &self.nest {
            return Pl { p: nest_prog(n, layers, &self.raw.outs), x, dx, more, floor: 0.0 };
        }
        if profile == Profile::Pwl {
            more.clear();
        }
        let mut pts = vec![x.clone()];
        let mut incs = vec![dx.clone()];
        for d in &more {
            pts.push(x.clone());
            incs.push(d.clone());
        }
        if profile == Profile::Pwl {
            // the function is also evaluated at the end point
            pts.push(x.iter().zip(&dx).map(|(a, b)| a + b).collect());
            incs.push(dx.clone());
        }
        let p = match profile {
            Profile::Exact | Profile::Pwl => compile(&self.raw, profile, &pts, &incs, false),
            _ => compile(&self.raw, profile, &[x.clone()], &[], false),
        };
        if profile == Profile::Pwl {
            return self.in_units(p, x, dx);
        }
        Pl { p, x, dx, more, floor: 1e-6 }
    }
    fn in_units(&self, p: Prog, x: Vec<f64>, dx: Vec<f64>) -> Pl {
        let s = |v: &[f64], k: i16| v.iter().map(|v| v * 2f64.powi(k as i32)).collect::<Vec<f64>>();
        let mut r = Pl { p: p.scaled(self.unit as i32), x: s(&x, self.unit), dx: s(&dx, self.unit), more: vec![], floor: 0.0 };
        if let Some((raw, x, dx, k, mix)) = &self.side {
            let n = raw.n;
            let (x, mut dx) = (fit(x, n), fit(dx, n));
            for i in 0..n {
                if self.cancel >> (7 - i % 8) & 1 == 1 {
                    dx[i] = -x[i];
                }
            }
            let end = x.iter().zip(&dx).map(|(a, b)| a + b).collect();
            let q = compile(raw, Profile::Pwl, &[x.clone(), end], &[dx.clone(), dx.clone()], false);
            r.p = r.p.beside(&q.scaled(*k as i32), *mix);
            r.x.extend(s(&x, *k));
            r.dx.extend(s(&dx, *k));
        }
        r
    }
    /// a k by m matrix of small integers
    pub fn matrix(&self, r: usize, c: usize, salt: usize) -> DMatrix<f64> {
        DMatrix::from_fn(r, c, |i, j| {
            if self.mats.is_empty() {
                (i == j) as u8 as f64
            } else {
                self.mats[(i * c + j + salt) % self.mats.len()] as f64
            }
        })
    }
}

/// many inputs, outputs, downstream rows or switching variables
fn wide() -> BoxedStrategy<PlCase> {
    (
        prop_oneof![
            pl_case(0..150, 4..30, 0..6, true),
            pl_case(1..6, 4..30, 0..150, true),
            pl_case(1..6, 60..160, 0..6, true),
            pl_case(20..70, 20..70, 20..70, true),
        ],
        any::<bool>(),
        0u8..150,
    )
        .prop_map(|(mut c, tall, k)| {
            if tall {
                c.k = k;
            }
            c
        })
        .boxed()
}

fn unit_u(profile: Profile) -> f64 {
    if matches!(profile, Profile::Exact | Profile::Pwl) {
        0.0
    } else {
        U64
    }
}

fn classes(o: &mut Obs, p: &Prog) {
    let s = p.num_abs();
    o.class_if(s >= 1, "switching");
    o.class_if(s >= 4, "4 or more switching variables");
    o.class_if(s == 0, "smooth");
}

// ---------------------------------------------------------------------------------------------

fn check_delta(c: &PlCase, o: &mut Obs, profile: Profile) -> Res {
    let Pl { p, x, dx, more, .. } = c.build(profile);
    let u = unit_u(profile);
    let n = p.n;
    classes(o, &p);
    o.nontrivial = p.num_abs() >= 1 && dx.iter().any(|d| *d != 0.0);
    o.sample(|| format!("{} at {:?} increment {:?}", p.show(), x, dx));
    let tape = total("recording", || record::<f64>(&p, &x, true))?;
    let mut all = vec![dx.clone()];
    all.extend(more);
    for dx in &all {
        let want = ref_delta(&p, &x, dx, u).expect("valid");
        let xs: Vec<AFloat<f64>> = (0..n).map(|i| AFloat::new(x[i], dx[i])).collect();
        let r = total("evaluation", || run_af(&p, &xs))?;
        let t = total("forward sweep", || tape.first_order_forward(&dv(dx)))?;
        for (k, w) in want.iter().enumerate() {
            for (how, g) in [("without tape", r[k].dvalue()), ("tape", t[k])] {
                ensure!(
                    close(g, w.g[0], w.eg[0]),
                    "{}: increment of register {} is {:?}, want {:?} (+-{:e}); {} at {:?} increment {:?}",
                    how, k, g, w.g[0], w.eg[0], p.show(), x, dx
                );
            }
        }
    }
    if profile == Profile::Pwl {
        // piecewise linear: exactly the difference of function values
        let f = |x: &[f64]| {
            let xs: Vec<AFloat<f64>> = x.iter().map(|v| AFloat::new(*v, 0.0)).collect();
            run_af(&p, &xs)
        };
        let end: Vec<f64> = (0..n).map(|i| x[i] + dx[i]).collect();
        let (a, b) = total("evaluation", || (f(&x), f(&end)))?;
        let t = tape.first_order_forward(&dv(&dx));
        for k in 0..p.nregs() {
            let w = b[k].value() - a[k].value();
            ensure!(
                t[k] == w,
                "register {}: f(x+dx)-f(x) = {:?} but the increment is {:?}; {} at {:?} increment {:?}",
                k, w, t[k], p.show(), x, dx
            );
        }
    }
    Ok(())
}

/// smooth-with-kinks programs: the linearization error shrinks quadratically
fn check_order(c: &PlCase, o: &mut Obs) -> Res {
    let n = c.raw.n;
    let x = fit(&c.x, n);
    let d = fit(&c.dx, n);
    let norm = d.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if norm == 0.0 {
        return o.discard("zero direction");
    }
    let h: Vec<f64> = [1e-2, 1e-3, 1e-4, 1e-6].iter().map(|t| t / norm).collect();
    let mut pts = vec![x.clone()];
    for t in &h {
        pts.push((0..n).map(|i| x[i] + t * d[i]).collect());
    }
    let p = compile(&c.raw, Profile::Full, &pts, &[], false);
    classes(o, &p);
    o.nontrivial = p.num_abs() >= 1 && p.ins.len() >= 3;
    o.sample(|| format!("{} at {:?} direction {:?}", p.show(), x, d));
    let f0 = ref_values(&p, &x, U64).expect("valid");
    for (k, t) in h.iter().enumerate() {
        let dx: Vec<f64> = (0..n).map(|i| pts[k + 1][i] - x[i]).collect();
        let xs: Vec<AFloat<f64>> = (0..n).map(|i| AFloat::new(x[i], dx[i])).collect();
        let r = run_af(&p, &xs);
        let f1 = ref_values(&p, &pts[k + 1], U64).expect("valid");
        let lin = ref_delta(&p, &x, &dx, U64).expect("valid");
        let bound = ref_order(&p, &x, &dx, U64).expect("valid");
        for j in 0..p.nregs() {
            let e = (f1[j].v - f0[j].v - r[j].dvalue()).abs();
            let rounding = 4.0 * (f0[j].ev + f1[j].ev) + 2.0 * lin[j].eg[0];
            o.class_if(j + 1 == p.nregs() && bound[j] < 0.01 * t * norm, "second-order bound is below 1% of the step");
            ensure!(
                e <= 1.5 * bound[j] + rounding,
                "register {}: error {:e} for the step {:e}, second-order bound {:e}, rounding {:e}; {} at {:?} along {:?}",
                j, e, t * norm, bound[j], rounding, p.show(), x, d
            );
        }
    }
    Ok(())
}

pub fn c09(run: &mut Run) {
    run.rule = "Random programs with abs, max, min and positive differences at random points and \
        increments (including increments that cancel inputs): with and without tape the increment \
        of every register is compared with an independent piecewise linearization; piecewise \
        linear programs in exact dyadic arithmetic must give exactly f(x+dx)-f(x); the error \
        against f itself is compared with a second-order bound for steps from 1e-2 to 1e-6. Non-trivial: a switching variable and a non-zero increment.";
    run.sub("full", (50_000, 1_500_000), || pl_case(1..5, 2..16, 0..3, false), |c, o| check_delta(c, o, Profile::Full));
    run.sub("exact", (40_000, 1_000_000), || pl_case(1..5, 2..20, 0..3, true), |c, o| check_delta(c, o, Profile::Exact));
    run.sub("pwl", (40_000, 1_000_000), || pl_case(1..5, 2..20, 0..3, true), |c, o| check_delta(c, o, Profile::Pwl));
    run.sub("nested", (20_000, 500_000), || nested(4), |c, o| check_delta(c, o, Profile::Full));
    run.sub("deep", (1_500, 40_000), || deep(4), |c, o| check_delta(c, o, Profile::Exact));
    run.sub("order", (20_000, 400_000), || pl_case(1..4, 2..10, 0..2, false), check_order);
    run.sub("range", (30000, 500000), crate::range::range_case, |c, o| crate::range::check_range(c, o, crate::range::How::Linearized));
}

// ---------------------------------------------------------------------------------------------

fn cmp_matrix(name: &str, got: &DMatrix<f64>, rows: usize, cols: usize, want: impl Fn(usize, usize) -> (f64, f64), ctx: &dyn Fn() -> String) -> Res {
    ensure!(
        got.nrows() == rows && got.ncols() == cols,
        "{} is {}x{}, want {}x{}; {}",
        name, got.nrows(), got.ncols(), rows, cols, ctx()
    );
    for i in 0..rows {
        for j in 0..cols {
            let (w, e) = want(i, j);
            ensure!(
                close(got[(i, j)], w, e),
                "{} entry ({}, {}) is {:?}, want {:?} (+-{:e}); {}",
                name, i, j, got[(i, j)], w, e, ctx()
            );
        }
    }
    Ok(())
}

fn check_anf(c: &PlCase, o: &mut Obs, profile: Profile) -> Res {
    let Pl { p, x, dx, more, .. } = c.build(profile);
    let u = unit_u(profile);
    let (n, m, s) = (p.n, p.m(), p.num_abs());
    classes(o, &p);
    o.nontrivial = s >= 2 && m >= 1;
    let show = || format!("{} at {:?} increment {:?}", p.show(), x, dx);
    o.sample(&show);
    let f = PF(p.clone());
    let pool = &pools()[c.pool as usize];
    let a = total("abs_normal", || pool.install(|| abs_normal(&f, &dv(&x))))?;
    let (g, zs) = ref_anf(&p, &x, u).expect("valid");
    cmp_matrix("Z", &a.zmat, s, n, |i, j| (zs[i].g[j], zs[i].eg[j]), &show)?;
    cmp_matrix("L", &a.lmat, s, s, |i, j| (zs[i].g[n + j], zs[i].eg[n + j]), &show)?;
    cmp_matrix("J", &a.jmat, m, n, |i, j| (g[p.outs[i]].g[j], g[p.outs[i]].eg[j]), &show)?;
    cmp_matrix("Y", &a.ymat, m, s, |i, j| (g[p.outs[i]].g[n + j], g[p.outs[i]].eg[n + j]), &show)?;
    for i in 0..s {
        for j in i..s {
            ensure!(a.lmat[(i, j)] == 0.0, "L entry ({}, {}) is {:?}; {}", i, j, a.lmat[(i, j)], show());
        }
    }
    ensure!(a.a.len() == s && a.b.len() == m, "a has {}, b has {} entries", a.a.len(), a.b.len());
    // the form evaluated with the returned data only
    let mut all = vec![vec![0.0; n], dx.clone()];
    all.extend(more);
    for (q, dx) in all.iter().enumerate() {
        let mut z: Vec<f64> = vec![];
        let mut ez = vec![];
        for i in 0..s {
            let mut v = a.a[i];
            // error of a: all terms |L| |z0|
            let mut e = zs[i].ev;
            for j in 0..i {
                e += (zs[i].eg[n + j] + 1e-14 * a.lmat[(i, j)].abs()) * zs[j].v.abs() + a.lmat[(i, j)].abs() * zs[j].ev;
            }
            for j in 0..n {
                v += a.zmat[(i, j)] * dx[j];
                e += (zs[i].eg[j] + 1e-14 * zs[i].g[j].abs()) * dx[j].abs();
            }
            for j in 0..i {
                let zj: f64 = z[j];
                v += a.lmat[(i, j)] * zj.abs();
                let ej: f64 = ez[j];
                e += a.lmat[(i, j)].abs() * ej + (zs[i].eg[n + j] + 1e-14 * a.lmat[(i, j)].abs()) * (zj.abs() + 0.0);
            }
            e += 1e-14 * (v.abs() + a.a[i].abs());
            if u == 0.0 {
                e = 0.0;
            }
            z.push(v);
            ez.push(e);
        }
        if q == 0 {
            for i in 0..s {
                ensure!(
                    close(z[i], zs[i].v, zs[i].ev + ez[i]),
                    "at dx = 0, z[{}] = {:?} but the argument of the absolute value is {:?} (+-{:e}); {}",
                    i, z[i], zs[i].v, ez[i], show()
                );
            }
        }
        let want = ref_delta(&p, &x, dx, u).expect("valid");
        for i in 0..m {
            let gi = &g[p.outs[i]];
            let mut v = a.b[i];
            let mut e = 1e-14 * a.b[i].abs();
            for j in 0..n {
                v += a.jmat[(i, j)] * dx[j];
                e += (gi.eg[j] + 1e-14 * gi.g[j].abs()) * dx[j].abs();
            }
            for j in 0..s {
                v += a.ymat[(i, j)] * z[j].abs();
                e += a.ymat[(i, j)].abs() * (ez[j] + zs[j].ev)
                    + (gi.eg[n + j] + 1e-14 * gi.g[n + j].abs()) * (z[j].abs() + zs[j].v.abs());
            }
            if u == 0.0 {
                e = 0.0;
            }
            let w = &want[p.outs[i]];
            ensure!(
                close(v, w.g[0], w.eg[0] + e),
                "b + J dx + Y|z| output {} is {:?}, increment of the linearization is {:?} (+-{:e}); {}",
                i, v, w.g[0], w.eg[0] + e, show()
            );
        }
    }
    Ok(())
}

pub fn c10(run: &mut Run) {
    run.rule = "Random programs with abs, max and min (0-4 inputs, 0-6 outputs, up to about 15 \
        switching variables): every block of the returned form is compared with independent \
        partial derivatives, L must be strictly lower triangular, and the form evaluated by \
        forward substitution must give the switching variables at dx = 0 and the increment of the \
        piecewise linearization for several dx; exactly in dyadic programs. Non-trivial: at least \
        2 switching variables and an output.";
    run.sub("full", (40_000, 1_000_000), || pl_case(0..5, 2..18, 0..7, false), |c, o| check_anf(c, o, Profile::Full));
    run.sub("exact", (40_000, 1_000_000), || pl_case(0..5, 2..24, 0..7, true), |c, o| check_anf(c, o, Profile::Exact));
    run.sub("wide", (200, 6_000), wide, |c, o| check_anf(c, o, Profile::Exact));
    run.sub("nested", (20_000, 500_000), || nested(4), |c, o| check_anf(c, o, Profile::Full));
    run.sub("deep", (500, 10_000), || deep(4), |c, o| check_anf(c, o, Profile::Exact));
}

// ---------------------------------------------------------------------------------------------

fn block_checks(c: &PlCase, o: &mut Obs, profile: Profile) -> Res {
    let Pl { p, x, dx, .. } = c.build(profile);
    let u = unit_u(profile);
    let (n, m, s) = (p.n, p.m(), p.num_abs());
    classes(o, &p);
    o.nontrivial = s >= 2 && m >= 1 && n >= 1;
    o.class_if(n == 0 || m == 0 || s == 0, "an empty block");
    let show = || format!("{} at {:?}", p.show(), x);
    o.sample(&show);
    let (g, zs) = ref_anf(&p, &x, u).expect("valid");
    let tape = total("Function::tape", || PF(p.clone()).tape(&dv(&x)))?;
    let mut at = total("switching tape", || AbsNormalTape::new(tape))?;
    ensure!(at.n() == n && at.m() == m && at.s() == s, "n, m, s = {}, {}, {}; {}", at.n(), at.m(), at.s(), show());
    ensure!(at.num_indeps() == n + s && at.num_deps() == s + m, "switching tape dimensions; {}", show());
    let y0 = at.y();
    let z0 = at.z();
    ensure!(at.x() == dv(&x) && y0.len() == m && z0.len() == s, "x, y, z of the switching tape; {}", show());
    for i in 0..s {
        ensure!(close(z0[i], zs[i].v, zs[i].ev), "z[{}] = {:?} want {:?}; {}", i, z0[i], zs[i].v, show());
    }
    for i in 0..m {
        let w = &g[p.outs[i]];
        ensure!(close(y0[i], w.v, w.ev), "y[{}] = {:?} want {:?}; {}", i, y0[i], w.v, show());
    }
    ensure!(at.num_abs() == 0, "the switching tape still contains absolute values");

    // dense reference [Z L; J Y] with errors
    let full = |i: usize, j: usize| -> (f64, f64) {
        let r = if i < s { &zs[i] } else { &g[p.outs[i - s]] };
        (r.g[j], r.eg[j])
    };
    let pool = &pools()[c.pool as usize];
    macro_rules! block {
        ($ty:ident, $name:expr, $r0:expr, $rows:expr, $c0:expr, $cols:expr) => {{
            let b = $ty::new(&at);
            let (r0, rows, c0, cols): (usize, usize, usize, usize) = ($r0, $rows, $c0, $cols);
            let dense = |i: usize, j: usize| full(r0 + i, c0 + j);
            ensure!(b.nrows() == rows && b.ncols() == cols, "{} is {}x{}, want {}x{}; {}", $name, b.nrows(), b.ncols(), rows, cols, show());
            ensure!(b.num_indeps() == cols && b.num_deps() == rows, "{} tape dimensions", $name);
            let k = c.k as usize;
            // products with generated matrices in several storages
            let right = c.matrix(cols, k, 3);
            let left = c.matrix(k, rows, 5);
            let want_r = |i: usize, j: usize| {
                (0..cols).fold((0.0, 0.0), |(v, e), q| {
                    let (d, de) = dense(i, q);
                    (v + d * right[(q, j)], e + (de + if u > 0.0 { 1e-14 * d.abs() } else { 0.0 }) * right[(q, j)].abs())
                })
            };
            let want_l = |i: usize, j: usize| {
                (0..rows).fold((0.0, 0.0), |(v, e), q| {
                    let (d, de) = dense(q, j);
                    (v + d * left[(i, q)], e + (de + if u > 0.0 { 1e-14 * d.abs() } else { 0.0 }) * left[(i, q)].abs())
                })
            };
            let r = total(concat!($name, ".mul_right"), || pool.install(|| b.mul_right(&right)))?;
            cmp_matrix(concat!($name, ".mul_right"), &r, rows, k, want_r, &show)?;
            let l = total(concat!($name, ".mul_left"), || pool.install(|| b.mul_left(&left)))?;
            cmp_matrix(concat!($name, ".mul_left"), &l, k, cols, want_l, &show)?;
            // a view into a larger matrix
            let mut big = DMatrix::from_element(cols + 2, k + 1, 77.0);
            for i in 0..cols { for j in 0..k { big[(i + 1, j + 1)] = right[(i, j)]; } }
            let r = total(concat!($name, ".mul_right of a view"), || b.mul_right(&big.slice((1, 1), (cols, k))))?;
            cmp_matrix(concat!($name, ".mul_right of a view"), &r, rows, k, want_r, &show)?;
            let mut big = DMatrix::from_element(k + 2, rows + 1, 77.0);
            for i in 0..k { for j in 0..rows { big[(i + 1, j + 1)] = left[(i, j)]; } }
            let l = total(concat!($name, ".mul_left of a view"), || b.mul_left(&big.slice((1, 1), (k, rows))))?;
            cmp_matrix(concat!($name, ".mul_left of a view"), &l, k, cols, want_l, &show)?;
            // vectors
            if k > 0 {
                let rv: DVector<f64> = right.column(0).into_owned();
                let r = total(concat!($name, ".mul_right of a vector"), || b.mul_right(&rv))?;
                cmp_matrix(concat!($name, ".mul_right of a vector"), &r, rows, 1, |i, _| want_r(i, 0), &show)?;
                let lv: nalgebra::RowDVector<f64> = left.row(0).into_owned();
                let l = total(concat!($name, ".mul_left of a row vector"), || b.mul_left(&lv))?;
                cmp_matrix(concat!($name, ".mul_left of a row vector"), &l, 1, cols, |_, j| want_l(0, j), &show)?;
            }
            // rows and columns
            for i in 0..rows {
                let r = total(concat!($name, ".row"), || b.row(i))?;
                cmp_matrix(concat!($name, ".row"), &r, 1, cols, |_, j| dense(i, j), &show)?;
            }
            for j in 0..cols {
                let r = total(concat!($name, ".column"), || b.column(j))?;
                cmp_matrix(concat!($name, ".column"), &r, rows, 1, |i, _| dense(i, j), &show)?;
            }
            // wrong shapes are refused
            ensure!(caught(|| b.mul_right(&DMatrix::<f64>::zeros(cols + 1, 1))).is_none(), "{}.mul_right accepted a wrong shape", $name);
            ensure!(caught(|| b.mul_left(&DMatrix::<f64>::zeros(1, rows + 1))).is_none(), "{}.mul_left accepted a wrong shape", $name);
        }};
    }
    block!(AbsNormalZ, "Z", 0, s, 0, n);
    block!(AbsNormalL, "L", 0, s, n, s);
    block!(AbsNormalJ, "J", s, m, 0, n);
    block!(AbsNormalY, "Y", s, m, n, s);

    // sweeps of the switching tape itself
    let seed: Vec<f64> = (0..n + s).map(|i| c.matrix(1, n + s, 1)[(0, i)]).collect();
    let f = total("switching forward sweep", || at.first_order_forward(&dv(&seed)))?;
    let mut want = vec![];
    for i in 0..s + m {
        let (mut v, mut e) = (0.0, 0.0);
        for j in 0..n + s {
            let (d, de) = full(i, j);
            v += d * seed[j];
            e += (de + if u > 0.0 { 1e-14 * d.abs() } else { 0.0 }) * seed[j].abs();
        }
        want.push((v, e));
        ensure!(close(f[i], v, e), "switching forward sweep entry {} is {:?} want {:?}; {}", i, f[i], v, show());
    }
    let w: Vec<f64> = (0..s + m).map(|i| c.matrix(1, s + m, 2)[(0, i)]).collect();
    let b = total("switching reverse sweep", || at.first_order_reverse(&dv(&w)))?;
    for j in 0..n + s {
        let (mut v, mut e) = (0.0, 0.0);
        for i in 0..s + m {
            let (d, de) = full(i, j);
            v += d * w[i];
            e += (de + if u > 0.0 { 1e-14 * d.abs() } else { 0.0 }) * w[i].abs();
        }
        ensure!(close(b[j], v, e), "switching reverse sweep entry {} is {:?} want {:?}; {}", j, b[j], v, show());
    }
    // replay of the switching tape: absolute values are inputs
    if profile == Profile::Exact {
        let wv: Vec<f64> = (0..s).map(|i| c.matrix(1, s, 7)[(0, i)] / 2.0).collect();
        if let Some((r, z)) = ref_switch(&p, &x, &wv, 1e-14) {
            let mut input = x.clone();
            input.extend(&wv);
            total("switching replay", || at.zero_order(&dv(&input)))?;
            let out = Tape::y(&at);
            for i in 0..s {
                ensure!(close(out[i], z[i].v, z[i].ev), "switching replay: z[{}] is {:?} want {:?}; {}", i, out[i], z[i].v, show());
                ensure!(at.z()[i] == out[i], "z() after a replay");
            }
            for i in 0..m {
                let q = &r[p.outs[i]];
                ensure!(close(out[s + i], q.v, q.ev), "switching replay: y[{}] is {:?} want {:?}; {}", i, out[s + i], q.v, show());
                ensure!(at.y()[i] == out[s + i], "y() after a replay");
            }
            ensure!(at.x() == dv(&x), "x() after a replay");
        }
    }
    let _ = (dx, hcat);
    Ok(())
}

pub fn c11(run: &mut Run) {
    run.rule = "Random programs with abs, max and min: all four blocks are multiplied from both \
        sides with generated matrices (0-4 columns or rows; owned, views with stride, vectors), \
        rows and columns taken, sizes read, wrong shapes offered; everything is compared with one \
        independent dense matrix. The switching tape is swept and replayed with free absolute \
        values. Non-trivial: at least 2 switching variables, an input and an output.";
    run.sub("full", (12_000, 300_000), || pl_case(0..5, 2..16, 0..5, false), |c, o| block_checks(c, o, Profile::Full));
    run.sub("exact", (12_000, 300_000), || pl_case(0..5, 2..20, 0..5, true), |c, o| block_checks(c, o, Profile::Exact));
    run.sub("wide", (80, 2_000), wide, |c, o| block_checks(c, o, Profile::Exact));
    run.sub("nested", (5_000, 120_000), || nested(4), |c, o| block_checks(c, o, Profile::Full));
    run.sub("deep", (150, 4_000), || deep(4), |c, o| block_checks(c, o, Profile::Exact));
}

// ---------------------------------------------------------------------------------------------

pub fn cmp_piece(gj: &GeneralizedJacobian, p: &Prog, piece: &Piece, what: &str, show: &dyn Fn() -> String) -> Res {
    let (n, m) = (p.n, p.m());
    let r = |i: usize| &piece.regs[p.outs[i]];
    cmp_matrix(&format!("{}: G", what), &gj.homogenous, m, n, |i, j| (r(i).g[j], r(i).eg[j]), show)?;
    ensure!(gj.inhomogenous.len() == m, "{}: g has {} entries", what, gj.inhomogenous.len());
    for i in 0..m {
        ensure!(
            close(gj.inhomogenous[i], r(i).g[n], r(i).eg[n]),
            "{}: offset {} is {:?}, want {:?} (+-{:e}); {}",
            what, i, gj.inhomogenous[i], r(i).g[n], r(i).eg[n], show()
        );
    }
    Ok(())
}

/// G dx + g is the increment
fn cmp_increment(gj: &GeneralizedJacobian, p: &Prog, piece: &Piece, dx: &[f64], u: f64, show: &dyn Fn() -> String) -> Res {
    for i in 0..p.m() {
        let r = &piece.regs[p.outs[i]];
        let mut v = gj.inhomogenous[i];
        let mut e = r.eg[p.n] + r.eg[p.n + 1];
        for j in 0..p.n {
            v += gj.homogenous[(i, j)] * dx[j];
            e += (r.eg[j] + 1e-14 * r.g[j].abs()) * dx[j].abs();
        }
        if u == 0.0 {
            e = 0.0;
        }
        ensure!(
            close(v, r.g[p.n + 1], e),
            "G dx + g output {} is {:?}, increment of the linearization is {:?} (+-{:e}); {}",
            i, v, r.g[p.n + 1], e, show()
        );
    }
    Ok(())
}

fn check_gj(c: &PlCase, o: &mut Obs, profile: Profile) -> Res {
    let Pl { p, x, dx, floor, .. } = c.build(profile);
    let u = unit_u(profile);
    let (n, m, s) = (p.n, p.m(), p.num_abs());
    let show = || format!("{} at {:?} increment {:?}", p.show(), x, dx);
    classes(o, &p);
    let piece = ref_piece_near(&p, &x, &dx, &[], u, floor).expect("valid");
    if piece.near {
        return o.discard("a switching variable is too close to zero");
    }
    o.class_if(piece.ties > 0, "ties");
    o.class_if(piece.sigma.windows(2).any(|w| w[0] != w[1]), "mixed signs");
    o.nontrivial = m >= 1 && n >= 1 && (s >= 1 || profile == Profile::Smooth);
    o.sample(&show);
    let f = PF(p.clone());
    let pool = &pools()[c.pool as usize];
    let gj = total("generalized_jacobian", || pool.install(|| generalized_jacobian(&f, &dv(&x), &dv(&dx), &[], None)))?;
    cmp_piece(&gj, &p, &piece, "generalized_jacobian", &show)?;
    cmp_increment(&gj, &p, &piece, &dx, u, &show)?;
    let gt = total("generalized_jacobian_tape", || generalized_jacobian_tape(f.tape(&dv(&x)), &dv(&dx), &[], None))?;
    cmp_piece(&gt, &p, &piece, "generalized_jacobian_tape", &show)?;
    if s == 0 {
        let jac = ref_grad(&p, &x, u).expect("valid");
        for i in 0..m {
            ensure!(gj.inhomogenous[i] == 0.0, "smooth function with offset {:?}; {}", gj.inhomogenous[i], show());
            for j in 0..n {
                let w = &jac[p.outs[i]];
                ensure!(close(gj.homogenous[(i, j)], w.g[j], w.eg[j]), "smooth function: G ({}, {}) is {:?}, Jacobian {:?}; {}", i, j, gj.homogenous[(i, j)], w.g[j], show());
            }
        }
    }
    if profile == Profile::Pwl {
        let fv = |x: Vec<f64>| total("eval_float", || f.eval_float(DVector::from_vec(x)));
        let (a, b) = (fv(x.clone())?, fv((0..n).map(|i| x[i] + dx[i]).collect())?);
        for i in 0..m {
            let mut v = a[i] + gj.inhomogenous[i];
            for j in 0..n {
                v += gj.homogenous[(i, j)] * dx[j];
            }
            ensure!(v == b[i], "f(x) + G dx + g output {} is {:?}, f(x+dx) is {:?}; {}", i, v, b[i], show());
        }
    }
    Ok(())
}

pub fn c12(run: &mut Run) {
    run.rule = "Random programs (smooth, piecewise linear, mixed) at random points and increments: \
        G and g are compared with the piece selected by an independent evaluation of the switching \
        variables, G dx + g with the increment, smooth programs with the Jacobian and offset zero, \
        piecewise linear ones with f(x+dx); exactly in dyadic programs. Programs with a switching \
        variable within rounding of zero are discarded (floating-point ones only). Non-trivial: an \
        input, an output and a switching variable (or a smooth program).";
    run.sub("full", (40_000, 1_000_000), || pl_case(0..5, 2..16, 0..6, false), |c, o| check_gj(c, o, Profile::Full));
    run.sub("exact", (40_000, 1_000_000), || pl_case(0..5, 2..24, 0..6, true), |c, o| check_gj(c, o, Profile::Exact));
    run.sub("pwl", (40_000, 1_000_000), || pl_case(0..5, 2..24, 0..6, true), |c, o| check_gj(c, o, Profile::Pwl));
    run.sub("smooth", (20_000, 400_000), || pl_case(0..6, 2..14, 0..6, false), |c, o| check_gj(c, o, Profile::Smooth));
    run.sub("large", (1_500, 40_000), || pl_case(1..5, 30..90, 1..6, true), |c, o| check_gj(c, o, Profile::Pwl));
    run.sub("wide", (250, 6_000), wide, |c, o| check_gj(c, o, Profile::Pwl));
    run.sub("nested", (30_000, 600_000), || nested(4), |c, o| check_gj(c, o, Profile::Full));
    run.sub("deep", (1_500, 40_000), || deep(4), |c, o| check_gj(c, o, Profile::Exact));
}

fn small_next(c: &PlCase, m: usize) -> GeneralizedJacobian {
    let k = c.k as usize;
    GeneralizedJacobian {
        homogenous: c.matrix(k, m, 11),
        inhomogenous: c.matrix(k, 1, 13).column(0).into_owned(),
        multiplicity: c.mats.first().map_or(0, |v| v.unsigned_abs() as usize),
    }
}

fn check_ties(c: &PlCase, o: &mut Obs, profile: Profile) -> Res {
    let Pl { p, x, dx, .. } = c.build(profile);
    let m = p.m();
    let piece = ref_piece(&p, &x, &dx, &c.bits, 0.0).expect("valid");
    let show = || format!("{} at {:?} increment {:?} bits {:?}", p.show(), x, dx, c.bits);
    classes(o, &p);
    o.class_if(piece.ties >= 2, "2 or more ties");
    o.class_if(piece.ties > 8, "more than 8 ties");
    o.class_if(piece.ties > 0 && piece.ties < p.num_abs(), "ties between strict signs");
    o.class_if(piece.ties > 8 * c.bits.len(), "bits exhausted");
    o.nontrivial = piece.ties > 0 && m > 0;
    o.sample(&show);
    let f = PF(p.clone());
    let gj = total("generalized_jacobian", || generalized_jacobian(&f, &dv(&x), &dv(&dx), &c.bits, None))?;
    ensure!(gj.multiplicity == piece.ties, "multiplicity is {}, {} switching variables are zero; {}", gj.multiplicity, piece.ties, show());
    cmp_piece(&gj, &p, &piece, "with bits", &show)?;
    cmp_increment(&gj, &p, &piece, &dx, 0.0, &show)?;
    // multiplicity adds to that of the downstream result
    let next = small_next(c, m);
    let k2 = next.multiplicity;
    let gn = total("generalized_jacobian with next", || generalized_jacobian_tape(f.tape(&dv(&x)), &dv(&dx), &c.bits, Some(next.clone())))?;
    ensure!(gn.multiplicity == piece.ties + k2, "multiplicity with a downstream result is {}, want {}; {}", gn.multiplicity, piece.ties + k2, show());
    // the signs are the same ones
    ensure!(gn.homogenous == &next.homogenous * &gj.homogenous, "the downstream result changes the selected piece; {}", show());
    Ok(())
}

pub fn c13(run: &mut Run) {
    run.rule = "Dyadic programs with many exact ties (increments cancelling inputs, equal operands \
        of max and min) and random sign strings of 0-3 bytes: the multiplicity, G, g and the \
        increment are compared exactly with an independent evaluation that takes one bit per tie. \
        Non-trivial: at least one tie and an output.";
    run.sub("pwl", (50_000, 1_500_000), || pl_case(1..5, 3..30, 1..5, true), |c, o| check_ties(c, o, Profile::Pwl));
    run.sub("exact", (40_000, 1_000_000), || pl_case(1..5, 3..24, 1..5, true), |c, o| check_ties(c, o, Profile::Exact));
    run.sub("many", (5_000, 100_000), || many_ties(), |c, o| check_ties(c, o, Profile::Pwl));
    run.sub("deep", (1_500, 40_000), || deep(0), |c, o| check_ties(c, o, Profile::Exact));
}

/// programs that are mostly absolute values of things that cancel
fn many_ties() -> BoxedStrategy<PlCase> {
    (pl_case(1..4, 12..50, 1..5, true), pvec(any::<u8>(), 0..5))
        .prop_map(|(mut c, bits)| {
            for (k, r) in c.raw.ins.iter_mut().enumerate() {
                if k % 3 != 0 {
                    r.op = [8, 11, 12, 10][r.op as usize % 4];
                    // register operands
                    r.k -= r.k % 5;
                }
            }
            c.cancel = 255;
            c.bits = bits;
            c
        })
        .boxed()
}

fn check_next(c: &PlCase, o: &mut Obs, profile: Profile) -> Res {
    let Pl { p, x, dx, floor, .. } = c.build(profile);
    let u = unit_u(profile);
    let (n, m) = (p.n, p.m());
    let show = || format!("{} at {:?} increment {:?}", p.show(), x, dx);
    let piece = ref_piece_near(&p, &x, &dx, &c.bits, u, floor).expect("valid");
    if piece.near {
        return o.discard("a switching variable is too close to zero");
    }
    classes(o, &p);
    let next = small_next(c, m);
    let k = c.k as usize;
    o.class_if(k > m, "more downstream rows than outputs");
    o.class_if(k == 0, "no downstream rows");
    o.nontrivial = k >= 1 && m >= 1 && n >= 1 && p.num_abs() >= 1;
    o.sample(|| format!("{} downstream {}x{} {:?}", show(), k, m, next.homogenous.as_slice()));
    let f = PF(p.clone());
    let pool = &pools()[c.pool as usize];
    let gj = total("generalized_jacobian", || pool.install(|| generalized_jacobian(&f, &dv(&x), &dv(&dx), &c.bits, Some(next.clone()))))?;
    let gt = total("generalized_jacobian_tape", || generalized_jacobian_tape(f.tape(&dv(&x)), &dv(&dx), &c.bits, Some(next.clone())))?;
    let alone = total("generalized_jacobian", || generalized_jacobian(&f, &dv(&x), &dv(&dx), &c.bits, None))?;
    for (how, gj) in [("function", &gj), ("tape", &gt)] {
        ensure!(
            gj.multiplicity == piece.ties + next.multiplicity && gj.multiplicity == alone.multiplicity + next.multiplicity,
            "{}: multiplicity {}; {}", how, gj.multiplicity, show()
        );
        let want = |i: usize, j: usize| {
            let (mut v, mut e) = (0.0, 0.0);
            for q in 0..m {
                let r = &piece.regs[p.outs[q]];
                let h = next.homogenous[(i, q)];
                v += h * r.g[j];
                e += h.abs() * (r.eg[j] + if u > 0.0 { 1e-14 * r.g[j].abs() } else { 0.0 });
            }
            (v, e)
        };
        cmp_matrix(&format!("{}: G2 G", how), &gj.homogenous, k, n, want, &show)?;
        ensure!(gj.inhomogenous.len() == k, "{}: offset has {} entries; {}", how, gj.inhomogenous.len(), show());
        for i in 0..k {
            let (mut v, mut e) = want(i, n);
            v += next.inhomogenous[i];
            e += if u > 0.0 { 1e-14 * next.inhomogenous[i].abs() } else { 0.0 };
            ensure!(
                close(gj.inhomogenous[i], v, e),
                "{}: offset {} is {:?}, want {:?} (+-{:e}); {}", how, i, gj.inhomogenous[i], v, e, show()
            );
        }
    }
    Ok(())
}

pub fn c14(run: &mut Run) {
    run.rule = "Random programs (dyadic and general) with a random downstream matrix of 0-4 rows, \
        offset and multiplicity: matrix, offset and multiplicity are compared with the composition \
        of the affine pieces computed independently. Non-trivial: an input, an output, a \
        downstream row and a switching variable.";
    run.sub("exact", (40_000, 1_000_000), || pl_case(1..5, 2..22, 1..6, true), |c, o| check_next(c, o, Profile::Exact));
    run.sub("full", (40_000, 1_000_000), || pl_case(1..5, 2..16, 1..6, false), |c, o| check_next(c, o, Profile::Full));
    run.sub("wide", (250, 6_000), wide, |c, o| check_next(c, o, Profile::Exact));
    run.sub("nested", (20_000, 500_000), || nested(4), |c, o| check_next(c, o, Profile::Full));
    run.sub("deep", (800, 20_000), || deep(4), |c, o| check_next(c, o, Profile::Exact));
}
