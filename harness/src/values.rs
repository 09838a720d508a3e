//! C01 values, C03 tapeless derivatives
use crate::fw::*;
use crate::ir::*;
use crate::{ensure, fail};
use advantage as adv;
use adv::{AContext, AFloat, Float, Function};
use nalgebra::DVector;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Rounds to the grid of f32 where needed, to zero where products would underflow
pub fn r32(v: &[f64], f32mode: bool) -> Vec<f64> {
    let r = |x: f64| if x.abs() < 1e-12 { 0.0 * x } else { x as f32 as f64 };
    v.iter().map(|x| if f32mode { r(*x) } else { *x }).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ValCase {
    pub raw: Raw,
    pub x: Vec<f64>,
    pub seeds: Vec<u8>,
    pub declared: u32,
    pub single: bool,
}

/// derivative seeds that must not influence values
const ODD_SEEDS: [f64; 8] =
    [0.0, 1.0, -2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300, -1e-300];

fn val_case(len: std::ops::Range<usize>, single: bool) -> BoxedStrategy<ValCase> {
    (
        raw(1usize..5, len, 1..4usize),
        vals(4),
        proptest::collection::vec(any::<u8>(), 4),
        any::<u32>(),
    )
        .prop_map(move |(raw, x, seeds, declared)| ValCase { raw, x, seeds, declared, single })
        .boxed()
}

fn check_values<S: Float + std::fmt::Debug>(c: &ValCase, o: &mut Obs, f32mode: bool) -> Res {
    let n = c.raw.n;
    let x = r32(&fit(&c.x, n), f32mode);
    let p = compile(&c.raw, Profile::Full, &[x.clone()], &[], f32mode);
    let u = if f32mode { U32 } else { U64 };
    let want = ref_values(&p, &x, u).expect("compiled program is valid");
    o.sample(|| format!("{} at {:?}, declared mask {:b}", p.show(), x, c.declared));
    o.nontrivial = p.ins.len() >= 3;
    o.class_if(p.ins.iter().any(|i| i.mixed()), "plain operand");
    o.class_if(p.ins.iter().any(|i| matches!(i, Ins::Bin(_, _, _, true))), "compound assignment");
    o.class_if(p.num_abs() > 0, "abs/max/min");
    let seed = |i: usize| S::from(ODD_SEEDS[c.seeds[i % 4] as usize % 8]).unwrap_or_else(S::one);
    let cmp = |r: &[AFloat<S>], how: &str| -> Res {
        for (k, (g, w)) in r.iter().zip(&want).enumerate() {
            let g = g.value().to_f64().unwrap();
            ensure!(
                close(g, w.v, w.ev),
                "{}: register {} is {:?}, want {:?} (+-{:e}); {}",
                how, k, g, w.v, w.ev, p.show()
            );
        }
        Ok(())
    };
    // without recording, arbitrary seeds
    let xs: Vec<AFloat<S>> =
        (0..n).map(|i| AFloat::new(S::from(x[i]).unwrap(), seed(i))).collect();
    let r = total("evaluation without recording", || run_af(&p, &xs))?;
    cmp(&r, "without recording")?;
    // recording, any subset of the inputs declared, others plain
    let mut ctx = AContext::new();
    let mut xs: Vec<AFloat<S>> =
        (0..n).map(|i| AFloat::new(S::from(x[i]).unwrap(), seed(i + 1))).collect();
    for i in 0..n {
        if c.declared >> i & 1 == 1 {
            ctx.set_indep(&mut xs[i]);
        }
    }
    o.class_if(c.declared & ((1 << n) - 1) != 0, "recorded");
    let r = total("evaluation while recording", || run_af(&p, &xs))?;
    cmp(&r, "while recording")?;
    // variables that outlived their recording
    drop(ctx);
    let r = total("evaluation after the recording is gone", || run_af(&p, &xs))?;
    cmp(&r, "after the recording is gone")?;
    if !f32mode {
        let y = total("eval_float", || PF(p.clone()).eval_float(DVector::from_vec(x.clone())))?;
        ensure!(y.len() == p.m(), "eval_float returned {} values", y.len());
        for (k, reg) in p.outs.iter().enumerate() {
            let w = &want[*reg];
            ensure!(close(y[k], w.v, w.ev), "eval_float output {}: {:?} want {:?}", k, y[k], w.v);
        }
    }
    Ok(())
}

pub fn c01(run: &mut Run) {
    run.rule = "Random straight-line programs (all supported operations and operand forms, f64 \
        and f32) at random valid points, with finite and non-finite derivative seeds, evaluated \
        without recording, while recording with any subset of inputs declared, and after the \
        recording is gone; every intermediate register is compared with the plain-float value \
        within a running rounding bound. Non-trivial: at least 3 instructions.";
    run.assumptions.push("values stay in moderate range (|v| <= 1e4, no overflow to infinity)");
    run.sub("f64", (60_000, 1_500_000), || val_case(1..16, false), |c, o| check_values::<f64>(c, o, false));
    run.sub("f32", (30_000, 800_000), || val_case(1..12, true), |c, o| check_values::<f32>(c, o, true));
    run.sub("single-op", (40_000, 400_000), || val_case(1..3, false), |c, o| {
        check_values::<f64>(c, o, false)?;
        o.nontrivial = true;
        Ok(())
    });
    run.sub("nonfinite", (40_000, 500_000), nonfinite, check_nonfinite);
    run.sub("nonfinite f32", (40_000, 500_000), nonfinite, check_nonfinite32);
}

/// One operation on arbitrary (also non-finite, subnormal, huge) floats: exactly the float's
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NfCase {
    op: u8,
    #[serde(default)]
    n: i32,
    a: u64,
    b: u64,
    rec: u8,
    assign: bool,
}

fn bits() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        2 => val().prop_map(|v| v.to_bits()),
        2 => prop::sample::select(vec![
            0.0f64, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN,
            f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1e308, 1e-308, 4503599627370496.5,
            9007199254740993.0, -2147483648.0, 4294967296.0, 18446744073709551616.0,
        ]).prop_map(|v| v.to_bits()),
    ]
    .boxed()
}

fn nonfinite() -> BoxedStrategy<NfCase> {
    let n = prop_oneof![
        3 => -12i32..=12,
        2 => any::<i32>(),
        2 => (0u32..31, -1i64..=1, any::<bool>()).prop_map(|(k, d, s)| (((1i64 << k) + d) * if s { 1 } else { -1 }) as i32),
        1 => prop::sample::select(vec![i32::MIN, i32::MAX, 1000, -1000, 100_000, -100_000]),
    ];
    // bases whose large powers are ordinary numbers
    let base = prop_oneof![
        2 => bits(),
        1 => (any::<i16>(), 0u32..40).prop_map(|(d, k)| (1.0 + d as f64 / 32768.0 / (1u64 << k) as f64).to_bits()),
    ];
    (any::<u8>(), n, base, bits(), 0u8..4, any::<bool>())
        .prop_map(|(op, n, a, b, rec, assign)| NfCase { op, n, a, b, rec, assign })
        .boxed()
}

macro_rules! nonfinite_check {
    ($check:ident, $t:ident, $small:expr) => {
fn $check(c: &NfCase, o: &mut Obs) -> Res {
    fn same(a: $t, b: $t) -> bool {
        a == b || (a.is_nan() && b.is_nan())
    }
    fn near(a: $t, b: $t) -> bool {
        same(a, b) || (a.is_finite() && b.is_finite() && (a - b).abs() <= 8.0 * $t::EPSILON * b.abs() + $t::MIN_POSITIVE)
    }
    // what just overflows may also just not overflow
    fn edge(a: $t, b: $t) -> bool {
        let e = |a: $t, b: $t| a.is_infinite() && b.abs() > $t::MAX / 1000.0 && a.signum() == b.signum();
        e(a, b) || e(b, a)
    }
    let to = |b: u64| if c.assign && $small { <$t>::from_bits(b as _) } else { f64::from_bits(b) as $t };
    // quiet NaNs only
    let quiet = |v: $t| if v.is_nan() { $t::NAN } else { v };
    let (fa, fb) = (quiet(to(c.a)), quiet(to(c.b)));
    let (pa, pb) = (fa as f64, fb as f64);
    let mut ctx = AContext::new();
    let mut a = AFloat::<$t>::new(fa, 1.0);
    let mut b = AFloat::<$t>::new(fb, 0.5);
    if c.rec & 1 == 1 {
        ctx.set_indep(&mut a);
    }
    if c.rec & 2 == 2 {
        ctx.set_indep(&mut b);
    }
    let big = $t::MAX / 20.0;
    let (name, got, want): (&str, AFloat<$t>, $t) = match c.op % 36 {
        0 => ("+", if c.assign { let mut t = a; t += b; t } else { a + b }, fa + fb),
        1 => ("-", if c.assign { let mut t = a; t -= b; t } else { a - b }, fa - fb),
        2 => ("*", if c.assign { let mut t = a; t *= b; t } else { a * b }, fa * fb),
        3 => ("/", if c.assign { let mut t = a; t /= b; t } else { a / b }, fa / fb),
        4 => ("+f", if c.assign { let mut t = a; t += pb; t } else { a + pb }, fa + fb),
        5 => ("-f", if c.assign { let mut t = a; t -= pb; t } else { a - pb }, fa - fb),
        6 => ("*f", if c.assign { let mut t = a; t *= pb; t } else { a * pb }, fa * fb),
        7 => ("/f", if c.assign { let mut t = a; t /= pb; t } else { a / pb }, fa / fb),
        8 => ("f+", pa + b, fa + fb),
        9 => ("f-", pa - b, fa - fb),
        10 => ("f*", pa * b, fa * fb),
        11 => ("f/", pa / b, fa / fb),
        12 => ("neg", -a, -fa),
        13 => ("abs", a.abs(), fa.abs()),
        14 => ("sin", a.sin(), fa.sin()),
        15 => ("cos", a.cos(), fa.cos()),
        16 => ("exp", a.exp(), fa.exp()),
        17 => ("ln", a.ln(), fa.ln()),
        18 => ("asin", a.asin(), fa.asin()),
        19 => ("acos", a.acos(), fa.acos()),
        20 => ("atan", a.atan(), fa.atan()),
        21 => ("cbrt", a.cbrt(), fa.cbrt()),
        22 => ("powf", a.powf(b), fa.powf(fb)),
        23 => ("recip", a.recip(), 1.0 / fa),
        24 => ("tan", a.tan(), fa.tan()),
        25 => ("sin_cos.0", a.sin_cos().0, fa.sin()),
        26 => ("sin_cos.1", a.sin_cos().1, fa.cos()),
        27 | 28 if !(fa.abs() < big && fb.abs() < big) => return o.discard("overflow in between"),
        27 => ("max", a.max(b), fa.max(fb)),
        28 => ("min", a.min(b), fa.min(fb)),
        29 if fa == $t::NEG_INFINITY => return o.discard("not a finite input"),
        29 => ("sqrt", a.sqrt(), fa.sqrt()),
        30 => ("1/neg", 1.0 / -a, 1.0 / -fa),
        31 => ("1/(+)", 1.0 / (a + b), 1.0 / (fa + fb)),
        32 => ("1/(-f)", 1.0 / (a - pb), 1.0 / (fa - fb)),
        _ => ("powi", a.powi(c.n), fa.powi(c.n)),
    };
    o.nontrivial = true;
    o.class_if(!fa.is_finite() || !fb.is_finite(), "non-finite operand");
    o.class(name);
    o.sample(|| format!("{} on {:?}, {:?}", name, fa, fb));
    let g = got.value();
    let ok = if name == "max" || name == "min" {
        (g - want).abs() <= 8.0 * $t::EPSILON * (fa.abs() + fb.abs()) + 4.0 * $t::from_bits(1)
    } else if name == "powi" {
        // repeated multiplication and powf round differently; so does what just overflows
        let w = (fa as f64).powf(c.n as f64) as $t;
        let tol = 8.0 * $t::EPSILON * (1.0 + (c.n as $t).abs());
        near(g, want) || near(g, w) || (g.is_finite() && w.is_finite() && (g < 0.0) == (w < 0.0) && (g - w).abs() <= tol * w.abs()) || edge(g, w)
            || ((g == 0.0 || w == 0.0) && (g - w).abs() < $t::MIN_POSITIVE * 1000.0)
    } else {
        near(g, want) || edge(g, want)
    };
    ensure!(ok, "{} of {:?} and {:?} (n = {}) is {:?}, want {:?}", name, fa, fb, c.n, g, want);
    // signs of zeros, where one operation of the float decides
    if !["max", "min", "sqrt", "powi", "powf"].contains(&name) && g == 0.0 && want == 0.0 {
        ensure!(g.is_sign_negative() == want.is_sign_negative(), "{} of {:?} and {:?} is {:?}, want {:?}", name, fa, fb, g, want);
    }
    Ok(())
}
    };
}
nonfinite_check!(check_nonfinite, f64, false);
nonfinite_check!(check_nonfinite32, f32, true);

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DirCase {
    pub raw: Raw,
    pub x: Vec<f64>,
    pub dx: Vec<f64>,
    pub single: bool,
}

fn dir_case(len: std::ops::Range<usize>, single: bool) -> BoxedStrategy<DirCase> {
    (raw(1usize..5, len, 1..4usize), vals(4), vals(4))
        .prop_map(move |(raw, x, dx)| DirCase { raw, x, dx, single })
        .boxed()
}

fn check_dir<S: Float + std::fmt::Debug>(c: &DirCase, o: &mut Obs, f32mode: bool) -> Res {
    let n = c.raw.n;
    let x = r32(&fit(&c.x, n), f32mode);
    let dx = r32(&fit(&c.dx, n), f32mode);
    let p = compile(&c.raw, Profile::Smooth, &[x.clone()], &[], f32mode);
    let u = if f32mode { U32 } else { U64 };
    let mut want = ref_dir(&p, &x, &dx, u).expect("compiled program is valid");
    if f32mode {
        // products near the smallest f32
        want.iter_mut().for_each(|w| w.eg[0] += 1e-30);
    }
    o.sample(|| format!("{} at {:?} direction {:?}", p.show(), x, dx));
    o.nontrivial = p.ins.len() >= 3 && dx.iter().any(|d| *d != 0.0);
    o.class_if(p.ins.iter().any(|i| i.mixed()), "plain operand");
    o.class_if(p.ins.iter().any(|i| matches!(i, Ins::Bin(Bin::Powf, ..) | Ins::Un(Un::Powi(_), _))), "power");
    let xs: Vec<AFloat<S>> = (0..n)
        .map(|i| AFloat::new(S::from(x[i]).unwrap(), S::from(dx[i]).unwrap()))
        .collect();
    let r = total("evaluation", || run_af(&p, &xs))?;
    for (k, (g, w)) in r.iter().zip(&want).enumerate() {
        let g = g.dvalue().to_f64().unwrap();
        ensure!(
            close(g, w.g[0], w.eg[0]),
            "derivative of register {} is {:?}, want {:?} (+-{:e}); {} at {:?} dir {:?}",
            k, g, w.g[0], w.eg[0], p.show(), x, dx
        );
    }
    // the same while the inputs are recorded
    let mut ctx = AContext::new();
    let mut ys = xs.clone();
    for y in ys.iter_mut() {
        ctx.set_indep(y);
    }
    let r2 = total("evaluation", || run_af(&p, &ys))?;
    for (k, (g, w)) in r2.iter().zip(&want).enumerate() {
        let g = g.dvalue().to_f64().unwrap();
        ensure!(
            close(g, w.g[0], w.eg[0]),
            "recorded: derivative of register {} is {:?}, want {:?} (+-{:e})",
            k, g, w.g[0], w.eg[0]
        );
    }
    // changing precision keeps value and derivative
    for g in &r {
        let h = AFloat::<f64>::cast(*g);
        if h.value() != g.value().to_f64().unwrap() || h.dvalue() != g.dvalue().to_f64().unwrap() {
            fail!("cast of {:?} gives {:?}", g, h);
        }
    }
    Ok(())
}

fn check_mixed((c, mask): &(DirCase, u32), o: &mut Obs) -> Res {
    let n = c.raw.n;
    let x = r32(&fit(&c.x, n), true);
    let dx = r32(&fit(&c.dx, n), true);
    let p = compile(&c.raw, Profile::Smooth, &[x.clone()], &[], true);
    let mut want = ref_dir(&p, &x, &dx, U32).expect("compiled program is valid");
    want.iter_mut().for_each(|w| w.eg[0] += 1e-30);
    let k = p.ins.len().min(32) as u32;
    let singles = (mask & (u32::MAX >> (32 - k.max(1)))).count_ones();
    o.nontrivial = k >= 2 && singles > 0 && singles < k && dx.iter().any(|d| *d != 0.0);
    o.sample(|| format!("{} at {:?} direction {:?}, single precision where {:b}", p.show(), x, dx, mask));
    let mut xs: Vec<AFloat<f64>> = x.iter().map(|v| AFloat::new(*v, 0.0)).collect();
    let mut ctx = AContext::new();
    for (i, v) in xs.iter_mut().enumerate() {
        // seeded through the accessor, some of them recorded
        *v.dvalue_mut() = dx[i];
        if mask >> (31 - i) & 1 == 1 {
            ctx.set_indep(v);
        }
    }
    let r = total("evaluation", || run_mixed(&p, &xs, *mask))?;
    for (k, (g, w)) in r.iter().zip(&want).enumerate() {
        ensure!(
            close(g.value(), w.v, w.ev) && close(g.dvalue(), w.g[0], w.eg[0]),
            "register {} is {:?}, want {:?} (+-{:e}) with derivative {:?} (+-{:e}); {} at {:?} dir {:?}, single precision where {:b}",
            k, g, w.v, w.ev, w.g[0], w.eg[0], p.show(), x, dx, mask
        );
    }
    Ok(())
}

pub fn c03(run: &mut Run) {
    run.rule = "Random differentiable straight-line programs over all supported operations and \
        operand forms (f64 and f32) at random valid points with random directions (zero entries \
        included, seeds given to `new` or written through the accessor, also with a change of \
        precision between the instructions); the derivative carried by every register is compared with an independently \
        computed directional derivative within a running rounding bound. Non-trivial: at least 3 \
        instructions and a non-zero direction.";
    run.assumptions.push("points at a distance from singularities; |v| <= 1e4, path derivatives <= 1e6");
    run.sub("f64", (60_000, 1_500_000), || dir_case(1..16, false), |c, o| check_dir::<f64>(c, o, false));
    run.sub("f32", (30_000, 600_000), || dir_case(1..10, true), |c, o| check_dir::<f32>(c, o, true));
    run.sub("single-op", (60_000, 600_000), || dir_case(1..3, false), |c, o| {
        check_dir::<f64>(c, o, false)?;
        o.nontrivial = true;
        Ok(())
    });
    run.sub("range", (30000, 500000), crate::range::range_case, |c, o| crate::range::check_range(c, o, crate::range::How::Tapeless));
    run.sub("mixed precision", (15_000, 300_000), || (dir_case(2..10, true), any::<u32>()), check_mixed);
}
