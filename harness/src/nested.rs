//! C27 Active numbers of active numbers: higher derivatives
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::values::r32;
use advantage as adv;
use adv::{AContext, AFloat, Float, Operation, Tape};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A number and a bound of its error
#[derive(Clone, Copy, Debug)]
struct Ev {
    v: f64,
    e: f64,
}

#[derive(Clone, Copy)]
struct Ar {
    u: f64,
}

impl Ar {
    fn add(self, a: Ev, b: Ev) -> Ev {
        Ev { v: a.v + b.v, e: a.e + b.e + self.u * (a.v.abs() + b.v.abs()) }
    }
    fn mul(self, a: Ev, b: Ev) -> Ev {
        let v = a.v * b.v;
        Ev { v, e: a.v.abs() * b.e + b.v.abs() * a.e + a.e * b.e + self.u * v.abs() }
    }

    /// All coefficients of a product
    fn jmul(self, a: &[Ev], b: &[Ev]) -> Vec<Ev> {
        (0..a.len())
            .map(|s| {
                let mut sum = Ev { v: 0.0, e: 0.0 };
                for t in 0..=s {
                    if t & s == t {
                        sum = self.add(sum, self.mul(a[t], b[s & !t]));
                    }
                }
                sum
            })
            .collect()
    }

    /// All coefficients of f(a): the sum over the partitions of each index set of the derivative
    /// of the order of the partition times the coefficients of the parts
    fn jfun(self, a: &[Ev], f: &dyn Fn(usize, f64) -> f64) -> Vec<Ev> {
        let order = a.len().trailing_zeros() as usize;
        let (x, ex) = (a[0].v, a[0].e);
        let d: Vec<Ev> = (0..=order)
            .map(|p| {
                let v = f(p, x);
                let around = if ex > 0.0 { vec![x - ex, x, x + ex] } else { vec![] };
                let slope = around.iter().map(|x| f(p + 1, *x).abs()).fold(0.0, f64::max);
                // The library may get the derivative from any formula, e.g. 1 - x^2 as (1 - x) (1 + x)
                let cancelled = if p > 0 { f(p - 1, x).abs() } else { 0.0 };
                Ev { v, e: slope * ex + self.u * (v.abs() + cancelled) }
            })
            .collect();
        (0..a.len()).map(|s| if s == 0 { d[0] } else { self.parts(a, &d, s, 0, Ev { v: 1.0, e: 0.0 }) }).collect()
    }

    fn parts(self, a: &[Ev], d: &[Ev], rest: usize, count: usize, prod: Ev) -> Ev {
        if rest == 0 {
            return self.mul(d[count], prod);
        }
        let low = rest & rest.wrapping_neg();
        let others = rest & !low;
        let mut sum = Ev { v: 0.0, e: 0.0 };
        for t in 0..=others {
            if t & others == t {
                let part = t | low;
                sum = self.add(sum, self.parts(a, d, rest & !part, count + 1, self.mul(prod, a[part])));
            }
        }
        sum
    }

    fn jadd(self, a: &[Ev], b: &[Ev], sign: f64) -> Vec<Ev> {
        a.iter().zip(b).map(|(a, b)| self.add(*a, Ev { v: sign * b.v, e: b.e })).collect()
    }
}

/// Derivatives of every order of x^b
fn power(b: f64) -> impl Fn(usize, f64) -> f64 {
    move |p, x| {
        let c: f64 = (0..p).map(|i| b - i as f64).product();
        if c == 0.0 {
            0.0
        } else {
            c * x.powf(b - p as f64)
        }
    }
}

fn recip(p: usize, x: f64) -> f64 {
    (1..=p).map(|i| -(i as f64)).product::<f64>() / x.powi(p as i32 + 1)
}

fn ln(p: usize, x: f64) -> f64 {
    if p == 0 {
        x.ln()
    } else {
        recip(p - 1, x)
    }
}

fn sin(p: usize, x: f64) -> f64 {
    match p % 4 {
        0 => x.sin(),
        1 => x.cos(),
        2 => -x.sin(),
        _ => -x.cos(),
    }
}

/// tan, up to order 4
fn tan(p: usize, x: f64) -> f64 {
    let t = x.tan();
    let q = 1.0 + t * t;
    match p {
        0 => t,
        1 => q,
        2 => 2.0 * t * q,
        3 => 2.0 * q * (1.0 + 3.0 * t * t),
        _ => 8.0 * t * q * (2.0 + 3.0 * t * t),
    }
}

/// asin, up to order 4
fn asin(p: usize, x: f64) -> f64 {
    let q = 1.0 - x * x;
    match p {
        0 => x.asin(),
        1 => q.powf(-0.5),
        2 => x * q.powf(-1.5),
        3 => (1.0 + 2.0 * x * x) * q.powf(-2.5),
        _ => (9.0 * x + 6.0 * x * x * x) * q.powf(-3.5),
    }
}

/// atan, up to order 4
fn atan(p: usize, x: f64) -> f64 {
    let q = 1.0 + x * x;
    match p {
        0 => x.atan(),
        1 => 1.0 / q,
        2 => -2.0 * x / (q * q),
        3 => (6.0 * x * x - 2.0) / q.powi(3),
        _ => (24.0 * x - 24.0 * x * x * x) / q.powi(4),
    }
}

fn cbrt(p: usize, x: f64) -> f64 {
    let b = 1.0 / 3.0;
    let c: f64 = (0..p).map(|i| b - i as f64).product();
    c * x.cbrt() / x.powi(p as i32)
}

/// Coefficients of all registers; None: something is not finite, or too ill conditioned
fn reference(p: &Prog, x: &[Vec<f64>], u: f64) -> Option<Vec<Vec<Ev>>> {
    let ar = Ar { u };
    let len = x.first().map_or(4, |x| x.len());
    let lit = |c: f64| -> Vec<Ev> { (0..len).map(|s| Ev { v: if s == 0 { c } else { 0.0 }, e: 0.0 }).collect() };
    let mut r: Vec<Vec<Ev>> = x.iter().map(|x| x.iter().map(|v| Ev { v: *v, e: 0.0 }).collect()).collect();
    for i in &p.ins {
        let y = match *i {
            Ins::Const(c) => lit(c),
            Ins::MulAdd(a, b, c) => ar.jadd(&ar.jmul(&r[a], &r[b]), &r[c], 1.0),
            Ins::Un(un, a) => {
                let a = &r[a];
                let l2 = std::f64::consts::LN_2;
                match un {
                    Un::Neg => ar.jmul(&lit(-1.0), a),
                    Un::Sin | Un::SinCos(false) => ar.jfun(a, &sin),
                    Un::Cos | Un::SinCos(true) => ar.jfun(a, &|p, x| sin(p + 1, x)),
                    Un::Tan => ar.jfun(a, &tan),
                    Un::Exp => ar.jfun(a, &|_, x| x.exp()),
                    Un::Ln => ar.jfun(a, &ln),
                    Un::Asin => ar.jfun(a, &asin),
                    Un::Acos => ar.jfun(a, &|p, x| if p == 0 { x.acos() } else { -asin(p, x) }),
                    Un::Atan => ar.jfun(a, &atan),
                    Un::Sqrt => ar.jfun(a, &power(0.5)),
                    Un::Cbrt => ar.jfun(a, &cbrt),
                    Un::Exp2 => ar.jfun(a, &|p, x| x.exp2() * l2.powi(p as i32)),
                    Un::Log2 => ar.jfun(a, &|p, x| ln(p, x) / l2),
                    Un::Log10 => ar.jfun(a, &|p, x| ln(p, x) / 10f64.ln()),
                    Un::Recip => ar.jfun(a, &recip),
                    Un::ToDeg => ar.jmul(&lit(180.0 / std::f64::consts::PI), a),
                    Un::ToRad => ar.jmul(&lit(std::f64::consts::PI / 180.0), a),
                    Un::Powi(n) => ar.jfun(a, &power(n as f64)),
                    Un::Abs => return None,
                }
            }
            Ins::Bin(op, a, b, _) => {
                let opd = |o: Opd| match o {
                    Opd::R(i) => r[i].clone(),
                    Opd::F(c) | Opd::C(c) => lit(c),
                };
                let lit_of = |o: Opd| match o {
                    Opd::R(i) if i < p.n => None,
                    Opd::R(i) => match p.ins[i - p.n] {
                        Ins::Const(c) => Some(c),
                        _ => None,
                    },
                    Opd::F(c) | Opd::C(c) => Some(c),
                };
                let (ja, jb) = (opd(a), opd(b));
                match op {
                    Bin::Add => ar.jadd(&ja, &jb, 1.0),
                    Bin::Sub => ar.jadd(&ja, &jb, -1.0),
                    Bin::Mul => ar.jmul(&ja, &jb),
                    Bin::Div => ar.jmul(&ja, &ar.jfun(&jb, &recip)),
                    Bin::Powf => match (lit_of(a), lit_of(b)) {
                        (_, Some(b)) => ar.jfun(&ja, &power(b)),
                        // 0^y has no derivatives of some orders at y = 0, 1, 2
                        (Some(a), None) if a == 0.0 => {
                            if jb[0].v < 3.0 {
                                return None;
                            }
                            lit(0.0)
                        }
                        _ => ar.jfun(&ar.jmul(&jb, &ar.jfun(&ja, &ln)), &|_, x| x.exp()),
                    },
                    Bin::Hypot => {
                        let sum = ar.jadd(&ar.jmul(&ja, &ja), &ar.jmul(&jb, &jb), 1.0);
                        ar.jfun(&sum, &power(0.5))
                    }
                    Bin::Log => ar.jmul(&ar.jfun(&ja, &ln), &ar.jfun(&ar.jfun(&jb, &ln), &recip)),
                    Bin::Max | Bin::Min | Bin::AbsSub => return None,
                }
            }
        };
        if y.iter().any(|y| !y.v.is_finite() || !y.e.is_finite() || y.v.abs() > 1e9 || y.e > 1e-3 * (1.0 + y.v.abs())) {
            return None;
        }
        r.push(y);
    }
    Some(r)
}

/// Numbers by nesting depth
trait Jet: Float {
    type Base: Float;
    const ORDER: usize;
    /// coefficients by index set, the outermost derivative is the highest bit
    fn make(c: &[f64]) -> Self;
    fn read(&self) -> Vec<f64>;
}

impl Jet for f64 {
    type Base = f64;
    const ORDER: usize = 0;
    fn make(c: &[f64]) -> Self {
        c[0]
    }
    fn read(&self) -> Vec<f64> {
        vec![*self]
    }
}

impl Jet for f32 {
    type Base = f32;
    const ORDER: usize = 0;
    fn make(c: &[f64]) -> Self {
        c[0] as f32
    }
    fn read(&self) -> Vec<f64> {
        vec![*self as f64]
    }
}

impl<S: Jet> Jet for AFloat<S> {
    type Base = S::Base;
    const ORDER: usize = S::ORDER + 1;
    fn make(c: &[f64]) -> Self {
        let (lo, hi) = c.split_at(c.len() / 2);
        AFloat::new(S::make(lo), S::make(hi))
    }
    fn read(&self) -> Vec<f64> {
        let mut c = self.value().read();
        c.extend(self.dvalue().read());
        c
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NestCase {
    pub raw: Raw,
    pub x: Vec<f64>,
    /// seeds of all orders
    pub seeds: Vec<f64>,
    /// which seeds are used: bit per index set
    pub used: u8,
}

fn nest_case(len: std::ops::Range<usize>) -> BoxedStrategy<NestCase> {
    (
        raw(1usize..4, len, 1..3usize),
        vals(3),
        proptest::collection::vec(prop_oneof![Just(1.0), Just(0.0), (-8i32..=8).prop_map(|i| i as f64 / 4.0)], 24),
        prop_oneof![Just(0b0001_0110u8), Just(0xfe), any::<u8>()],
    )
        .prop_map(|(raw, x, seeds, used)| NestCase { raw, x, seeds, used })
        .boxed()
}

fn check_nested<S: Jet>(c: &NestCase, o: &mut Obs, f32mode: bool) -> Res
where
    AFloat<S>: Jet + std::fmt::Debug,
{
    let n = c.raw.n;
    let x = r32(&fit(&c.x, n), f32mode);
    let p = compile(&c.raw, Profile::Smooth, &[x.clone()], &[], f32mode);
    let u = if f32mode { U32 } else { U64 };
    let order = <AFloat<S> as Jet>::ORDER;
    let seeds: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            (0..1usize << order)
                .map(|s| match s {
                    0 => x[i],
                    s if c.used >> s & 1 == 1 => c.seeds[i * 8 + s],
                    _ => 0.0,
                })
                .collect()
        })
        .collect();
    let show = || format!("{} at {:?}", p.show(), seeds);
    let want = match reference(&p, &seeds, u) {
        Some(w) => w,
        None => {
            return o.discard("ill conditioned");
        }
    };
    o.sample(show);
    let top = (1usize << order) - 1;
    o.nontrivial = p.ins.len() >= 2 && want.iter().skip(n).any(|w| w[top].v != 0.0);
    o.class_if(want.iter().skip(n).any(|w| (1..top).any(|s| w[s].v == 0.0) && w[top].v != 0.0), "zero slope, nonzero curvature");
    o.class_if(p.ins.iter().any(|i| matches!(i, Ins::Bin(Bin::Powf, ..) | Ins::Un(Un::Powi(_) | Un::Sqrt | Un::Cbrt, _))), "power");
    let compare = |what: &str, r: &[AFloat<S>]| -> Res {
        for (k, (g, w)) in r.iter().zip(&want).enumerate() {
            let g = g.read();
            for s in 0..=top {
                let err = 8.0 * w[s].e + if f32mode { 1e-30 } else { 1e-290 };
                ensure!(
                    (g[s] - w[s].v).abs() <= err,
                    "{}: derivative {:b} of register {} is {:?}, want {:?} (+-{:e}); {}",
                    what, s, k, g[s], w[s].v, err, show()
                );
            }
        }
        Ok(())
    };
    let xs: Vec<AFloat<S>> = seeds.iter().map(|s| AFloat::<S>::make(s)).collect();
    let r = total("evaluation", || run_af(&p, &xs))?;
    compare("nested", &r)?;

    // recorded: the same numbers, and the same recording as that of plain numbers
    let mut ctx = AContext::new();
    let mut ys = xs.clone();
    ys.iter_mut().for_each(|y| ctx.set_indep(y));
    let r = total("evaluation", || run_af(&p, &ys))?;
    compare("recorded", &r)?;
    p.outs.iter().for_each(|k| ctx.set_dep(&r[*k]));
    let tape = ctx.tape();
    let mut plain = AContext::new();
    let mut zs: Vec<AFloat<S::Base>> = x.iter().map(|x| lit(*x)).collect();
    zs.iter_mut().for_each(|z| plain.set_indep(z));
    let r = total("evaluation", || run_af(&p, &zs))?;
    p.outs.iter().for_each(|k| plain.set_dep(&r[*k]));
    let plain = plain.tape();
    ensure!(
        tape.indeps() == plain.indeps() && tape.deps() == plain.deps(),
        "inputs and outputs {:?} {:?}, plain numbers have {:?} {:?}; {}",
        tape.indeps(), tape.deps(), plain.indeps(), plain.deps(), show()
    );
    let ops = |t: &dyn Tape| -> Vec<Operation> { t.ops_iter().collect() };
    ensure!(ops(&tape) == ops(&plain), "operations {:?}, plain numbers record {:?}; {}", ops(&tape), ops(&plain), show());
    for (k, (g, w)) in tape.y().iter().zip(p.outs.iter().map(|k| want[*k][0])).enumerate() {
        ensure!((g - w.v).abs() <= 8.0 * w.e + 1e-30, "recorded output {} is {}, want {}; {}", k, g, w.v, show());
    }
    Ok(())
}

/// A derivative computation as recorded program: the numbers inside of an active number are recorded
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RecCase {
    pub raw: Raw,
    pub x: Vec<f64>,
    pub s: Vec<f64>,
    /// where the recording is used
    pub replay: Option<(Vec<f64>, Vec<f64>)>,
    pub dir: Vec<f64>,
}

fn rec_case(len: std::ops::Range<usize>) -> BoxedStrategy<RecCase> {
    let seed = || proptest::collection::vec(prop_oneof![Just(1.0), Just(0.0), (-8i32..=8).prop_map(|i| i as f64 / 4.0)], 3);
    (
        raw(1usize..4, len, 1..3usize),
        vals(3),
        seed(),
        proptest::option::weighted(0.6, (vals(3), seed())),
        proptest::collection::vec((-8i32..=8).prop_map(|i| i as f64 / 4.0), 6),
    )
        .prop_map(|(raw, x, s, replay, dir)| RecCase { raw, x, s, replay, dir })
        .boxed()
}

fn check_recorded(c: &RecCase, o: &mut Obs) -> Res {
    let n = c.raw.n;
    let (x, s) = (fit(&c.x, n), fit(&c.s, n));
    let mut pts = vec![x.clone()];
    if let Some((x, _)) = &c.replay {
        pts.push(fit(x, n));
    }
    let p = compile(&c.raw, Profile::Smooth, &pts, &[], false);
    let (x2, s2) = match &c.replay {
        Some((x, s)) => (fit(x, n), fit(s, n)),
        None => (x.clone(), s.clone()),
    };
    let show = || format!("{} recorded at {:?} {:?}, used at {:?} {:?}", p.show(), x, s, x2, s2);
    // coefficients: value, derivative along s2, along d, both
    let at = |d: &[f64], e: &[f64]| -> Option<Vec<Vec<Ev>>> {
        let seeds: Vec<Vec<f64>> = (0..n).map(|i| vec![x2[i], s2[i], d[i], e[i]]).collect();
        reference(&p, &seeds, U64)
    };
    let unit = |k: usize| -> Vec<f64> { (0..2 * n).map(|i| if i == k { 1.0 } else { 0.0 }).collect() };
    let mut cols = Vec::new();
    for k in 0..2 * n {
        let d = unit(k);
        match at(&d[..n], &d[n..]) {
            Some(c) => cols.push(c),
            None => return o.discard("ill conditioned"),
        }
    }
    let dir = fit(&c.dir, 2 * n);
    let want = match at(&dir[..n], &dir[n..]) {
        Some(w) => w,
        None => return o.discard("ill conditioned"),
    };
    // The derivative of a power by its exponent ends at base zero, the one by its base does not
    let base = |a: &Opd| match *a {
        Opd::R(k) => want[k][0].v,
        Opd::F(c) | Opd::C(c) => c,
    };
    if c.replay.is_some() && p.ins.iter().any(|i| matches!(i, Ins::Bin(Bin::Powf, a, ..) if base(a) <= 0.0)) {
        return o.discard("used where a recorded power has no derivative");
    }
    o.sample(show);
    o.nontrivial = p.ins.len() >= 2 && p.outs.iter().any(|k| want[*k][3].v != 0.0);
    o.class_if(c.replay.is_some(), "used at another point");
    o.class_if(want.iter().skip(n).any(|w| w[1].v == 0.0 && w[3].v != 0.0), "zero slope, nonzero curvature");

    let mut ctx = AContext::new();
    let v: Vec<adv::ADouble> = x.iter().map(|x| ctx.new_indep(*x)).collect();
    let dv: Vec<adv::ADouble> = s.iter().map(|x| ctx.new_indep(*x)).collect();
    let xs: Vec<AFloat<adv::ADouble>> = v.iter().zip(&dv).map(|(v, dv)| AFloat::new(*v, *dv)).collect();
    let r = total("evaluation", || run_af(&p, &xs))?;
    for k in &p.outs {
        ctx.set_dep(&r[*k].value());
        ctx.set_dep(&r[*k].dvalue());
    }
    let mut tape = ctx.tape();
    if c.replay.is_some() {
        let all: Vec<f64> = x2.iter().chain(&s2).cloned().collect();
        total("replay", || tape.zero_order(&adv::DVector::from_vec(all.clone())))?;
    }
    let near = |what: &str, g: f64, w: Ev| -> Res {
        ensure!((g - w.v).abs() <= 32.0 * w.e + 1e-290, "{} is {:?}, want {:?} (+-{:e}); {}", what, g, w.v, w.e, show());
        Ok(())
    };
    let y = tape.y();
    let dy = total("forward", || tape.first_order_forward(&adv::DVector::from_vec(dir.clone())))?;
    for (i, k) in p.outs.iter().enumerate() {
        near("recorded value", y[2 * i], want[*k][0])?;
        near("recorded derivative", y[2 * i + 1], want[*k][1])?;
        near("slope of the value", dy[2 * i], want[*k][2])?;
        near("slope of the recorded derivative", dy[2 * i + 1], want[*k][3])?;
    }
    for row in 0..2 * p.outs.len() {
        let mut w = adv::DVector::zeros(2 * p.outs.len());
        w[row] = 1.0;
        let g = total("reverse", || tape.first_order_reverse(&w))?;
        for (j, col) in cols.iter().enumerate() {
            near(&format!("gradient of output {} entry {}", row, j), g[j], col[p.outs[row / 2]][2 + row % 2])?;
        }
    }
    Ok(())
}

pub fn c27(run: &mut Run) {
    run.rule = "Random differentiable programs evaluated with active numbers whose components are \
        active numbers again (two levels over f64 and f32, three levels over f64), with arbitrary \
        seeds of every order; every component of every register is compared with an independent \
        jet arithmetic (sums over partitions of the derivatives of the operation), within a running \
        rounding bound, and recordings of nested numbers with those of plain ones; derivative \
        computations are recorded themselves (inner numbers recorded, possibly used at another \
        point) and both sweeps of that recording compared with the second derivatives. Non-trivial: at \
        least two instructions and a register whose highest mixed derivative is not zero.";
    run.assumptions.push("differentiable operations at a distance from singularities; components up to 1e9");
    run.sub("second", (50_000, 1_000_000), || nest_case(1..10), |c, o| check_nested::<AFloat<f64>>(c, o, false));
    run.sub("single operation", (30_000, 400_000), || nest_case(1..4), |c, o| check_nested::<AFloat<f64>>(c, o, false));
    run.sub("second f32", (20_000, 400_000), || nest_case(1..7), |c, o| check_nested::<AFloat<f32>>(c, o, true));
    run.sub("recorded derivative", (30_000, 600_000), || rec_case(1..8), |c, o| check_recorded(c, o));
    run.sub("third", (30_000, 600_000), || nest_case(1..7), |c, o| check_nested::<AFloat<AFloat<f64>>>(c, o, false));
}
