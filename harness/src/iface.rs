//! C02 the generic numeric interface
use crate::ensure;
use crate::fw::*;
use advantage as adv;
use adv::{AContext, AFloat, Float};
use num::{Num, NumCast, One, ToPrimitive, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    a: u64,
    b: u64,
    da: u64,
    db: u64,
    int: i64,
    rec: u8,
    /// integer close to a rounding tie: odd mantissa, shift, distance
    #[serde(default)]
    tie: (u64, u8, i8),
}

impl Case {
    fn near_tie(&self) -> i128 {
        let (m, k, d) = self.tie;
        (((m | 1) as i128) << (k % 64)) + d as i128
    }
}

fn fbits() -> BoxedStrategy<u64> {
    let special = vec![
        0.0f64, -0.0, 1.0, -1.0, 0.5, -0.5, 0.99999, -0.99999, 1.5, 2.5, 127.0, 127.5, 128.0, -128.0,
        -128.5, -129.0, 255.0, 255.9, 256.0, 32767.5, 32768.0, -32768.9, 65535.5, 65536.0,
        2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
        9.007199254740993e15, 9223372036854775807.0, -9223372036854775808.0, 1.8446744073709552e19,
        3.4e38, 3.5e38, 1e300, -1e300, 1.7e38, 3.402823669209385e38, -1.7e38,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324,
        f64::EPSILON, 1e-40, 0.1, std::f64::consts::PI,
    ];
    prop_oneof![
        3 => any::<u64>(),
        3 => prop::sample::select(special).prop_map(f64::to_bits),
        2 => (-100_000i32..100_000).prop_map(|i| (i as f64 / 16.0).to_bits()),
        1 => any::<f32>().prop_map(|f| (f as f64).to_bits()),
        1 => any::<i64>().prop_map(|f| (f as f64).to_bits()),
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    let mantissa = (prop::sample::select(vec![25u32, 54, 11, 24, 53, 26]), any::<u64>())
        .prop_map(|(w, m)| (m >> (64 - w)) | 1 << (w - 1));
    let tie = (mantissa, 0u8..64, prop_oneof![-2i8..=2, any::<i8>()]);
    (fbits(), fbits(), fbits(), fbits(), any::<i64>(), 0u8..4, tie)
        .prop_map(|(a, b, da, db, int, rec, tie)| {
            let b = if int % 7 == 0 { a } else { b };
            Case { a, b, da, db, int, rec, tie }
        })
        .boxed()
}

fn eqf<S: Float>(a: S, b: S) -> bool {
    (a.is_nan() && b.is_nan())
        || (a == b && (a.is_sign_negative() == b.is_sign_negative() || !a.is_zero()))
}

fn zero_d<S: Float + Debug>(what: &str, x: AFloat<S>, want: S) -> Res {
    ensure!(eqf(x.value(), want), "{} is {:?}, want {:?}", what, x.value(), want);
    ensure!(x.dvalue().is_zero(), "{} carries the derivative {:?}", what, x.dvalue());
    Ok(())
}

fn check<S: Float + Debug + Send + Sync + 'static>(c: &Case, o: &mut Obs) -> Res
where
    AFloat<S>: Float,
{
    let f = |b: u64| S::from(f64::from_bits(b)).unwrap_or_else(S::nan);
    let (va, vb) = (f(c.a), f(c.b));
    let mut ctx = AContext::new();
    let mut a = AFloat::new(va, f(c.da));
    let mut b = AFloat::new(vb, f(c.db));
    if c.rec & 1 == 1 {
        ctx.set_indep(&mut a);
    }
    if c.rec & 2 == 2 {
        ctx.set_indep(&mut b);
    }
    o.nontrivial = true;
    o.class_if(!va.is_finite(), "non-finite");
    o.class_if(va.is_finite() && va.fract() != S::zero(), "fractional");
    o.sample(|| format!("{:?} and {:?}", a, b));

    // conversion to numbers
    macro_rules! conv {
        ($($m:ident),*) => { $(
            ensure!(a.$m() == va.$m(), "{} of {:?} is {:?}, want {:?}", stringify!($m), va, a.$m(), va.$m());
        )* };
    }
    conv!(to_i8, to_i16, to_i32, to_i64, to_i128, to_isize, to_u8, to_u16, to_u32, to_u64, to_u128, to_usize);
    ensure!(
        match (a.to_f64(), va.to_f64()) { (Some(p), Some(q)) => eqf(p, q), (None, None) => true, _ => false },
        "to_f64 of {:?}: {:?} want {:?}", va, a.to_f64(), va.to_f64()
    );
    ensure!(
        match (a.to_f32(), va.to_f32()) { (Some(p), Some(q)) => eqf(p, q), (None, None) => true, _ => false },
        "to_f32 of {:?}: {:?} want {:?}", va, a.to_f32(), va.to_f32()
    );
    // conversion from numbers
    let from = |what: &str, g: Option<AFloat<S>>, w: Option<S>| -> Res {
        match (g, w) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) => zero_d(what, g, w),
            (g, w) => Err(format!("{}: {:?} want {:?}", what, g, w)),
        }
    };
    let d = f64::from_bits(c.a);
    from("from f64", <AFloat<S> as NumCast>::from(d), S::from(d))?;
    from("from f32", <AFloat<S> as NumCast>::from(d as f32), S::from(d as f32))?;
    from("from i64", <AFloat<S> as NumCast>::from(c.int), S::from(c.int))?;
    from("from u64", <AFloat<S> as NumCast>::from(c.int as u64), S::from(c.int as u64))?;
    from("from i32", <AFloat<S> as NumCast>::from(c.int as i32), S::from(c.int as i32))?;
    from("from u8", <AFloat<S> as NumCast>::from(c.int as u8), S::from(c.int as u8))?;
    from("from i128", <AFloat<S> as NumCast>::from(c.int as i128 * 7919), S::from(c.int as i128 * 7919))?;
    from("from u128", <AFloat<S> as NumCast>::from(c.a as u128 * 7919), S::from(c.a as u128 * 7919))?;
    let t = c.near_tie();
    from("from i64 near a tie", <AFloat<S> as NumCast>::from(t as i64), S::from(t as i64))?;
    from("from u64 near a tie", <AFloat<S> as NumCast>::from(t as u64), S::from(t as u64))?;
    from("from isize near a tie", <AFloat<S> as NumCast>::from(-t as isize), S::from(-t as isize))?;
    from("from u32 near a tie", <AFloat<S> as NumCast>::from(t as u32), S::from(t as u32))?;
    from("from i128 near a tie", <AFloat<S> as NumCast>::from(-t), S::from(-t))?;
    from("from u128 near a tie", <AFloat<S> as NumCast>::from(t as u128), S::from(t as u128))?;
    from("NumCast from active", <AFloat<S> as NumCast>::from(a), S::from(va))?;
    from(
        "NumCast from active double",
        <AFloat<S> as NumCast>::from(AFloat::<f64>::new(d, 3.0)),
        S::from(d),
    )?;
    from(
        "NumCast from active single",
        <AFloat<S> as NumCast>::from(AFloat::<f32>::new(d as f32, 3.0)),
        S::from(d as f32),
    )?;
    zero_d("From", <AFloat<S> as From<S>>::from(va), va)?;
    // comparison and equality look at the value alone
    ensure!(a.partial_cmp(&b) == va.partial_cmp(&vb), "partial_cmp {:?} {:?}", va, vb);
    ensure!((a == b) == (va == vb) && (a != b) == (va != vb), "== {:?} {:?}", va, vb);
    ensure!(
        (a < b) == (va < vb) && (a <= b) == (va <= vb) && (a > b) == (va > vb) && (a >= b) == (va >= vb),
        "ordering of {:?} and {:?}", va, vb
    );
    // classification
    macro_rules! same {
        ($($m:ident),*) => { $(
            ensure!(a.$m() == va.$m(), "{} of {:?} is {:?}", stringify!($m), va, a.$m());
        )* };
    }
    same!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative, classify, is_zero, is_one);
    if va.is_finite() {
        same!(integer_decode);
    }
    if !va.is_nan() && !vb.is_nan() && va.is_finite() {
        let g = total("copysign", || a.copysign(b))?;
        ensure!(eqf(g.value(), va.copysign(vb)), "copysign {:?} {:?} is {:?}", va, vb, g);
    }
    // constants
    macro_rules! consts {
        ($($m:ident),*) => { $( zero_d(stringify!($m), AFloat::<S>::$m(), S::$m())?; )* };
    }
    consts!(nan, infinity, neg_infinity, neg_zero, min_value, max_value, min_positive_value, epsilon, zero, one);
    // accessors
    ensure!(eqf(a.value(), va) && eqf(*a.value_mut(), va), "value");
    ensure!(eqf(a.dvalue(), f(c.da)) && eqf(*a.dvalue_mut(), f(c.da)), "dvalue");
    Ok(())
}

fn check_refused<S: Float + Debug + Send + Sync + 'static>(c: &Case, o: &mut Obs) -> Res {
    let f = |b: u64| S::from(f64::from_bits(b)).unwrap_or_else(S::nan);
    let mut ctx = AContext::new();
    let mut a = AFloat::new(f(c.a), f(c.da));
    let mut b = AFloat::new(f(c.b), f(c.db));
    if c.rec & 1 == 1 {
        ctx.set_indep(&mut a);
    }
    if c.rec & 2 == 2 {
        ctx.set_indep(&mut b);
    }
    o.nontrivial = true;
    o.sample(|| format!("{:?} and {:?}", a, b));
    macro_rules! refused {
        ($($m:ident),*) => { $(
            if let Some(r) = caught(|| a.$m()) {
                return Err(format!("{} of {:?} returned {:?} instead of panicking", stringify!($m), a, r));
            }
        )* };
    }
    refused!(
        floor, ceil, round, trunc, fract, signum, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh
    );
    if let Some(r) = caught(|| a.atan2(b)) {
        return Err(format!("atan2 returned {:?}", r));
    }
    if let Some(r) = caught(|| a % b) {
        return Err(format!("% returned {:?}", r));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    s: String,
    radix: u32,
}

fn text() -> BoxedStrategy<Text> {
    let digits = "[-+]?[0-9a-zA-Z]{0,6}(\\.[0-9a-zA-Z]{0,6})?([eEpP][-+]?[0-9]{1,3})?";
    prop_oneof![
        2 => (digits, 2u32..=36).prop_map(|(s, radix)| Text { s, radix }),
        2 => ("[-+]?[0-9]{0,9}(\\.[0-9]{0,9})?([eE][-+]?[0-9]{1,2})?").prop_map(|s| Text { s, radix: 10 }),
        1 => any::<f64>().prop_map(|f| Text { s: format!("{}", f), radix: 10 }),
        1 => any::<f64>().prop_map(|f| Text { s: format!("{:e}", f), radix: 10 }),
        1 => (prop::sample::select(vec!["inf", "-inf", "NaN", "infinity", "", "-", "+", ".", "1.", ".5", "1e", "1 "]), 2u32..=36)
            .prop_map(|(s, radix)| Text { s: s.into(), radix }),
        1 => ("[01]{1,12}(\\.[01]{1,6})?", Just(2u32)).prop_map(|(s, radix)| Text { s, radix }),
    ]
    .boxed()
}

fn check_text<S: Float + Debug>(c: &Text, o: &mut Obs) -> Res
where
    <S as Num>::FromStrRadixErr: Debug,
{
    let want = caught(|| S::from_str_radix(&c.s, c.radix));
    let got = caught(|| AFloat::<S>::from_str_radix(&c.s, c.radix));
    o.class_if(matches!(want, Some(Ok(_))), "accepted text");
    o.nontrivial = matches!(want, Some(Ok(_)));
    o.sample(|| format!("{:?} radix {}", c.s, c.radix));
    match (got, want) {
        (Some(Ok(g)), Some(Ok(w))) => zero_d(&format!("parsing {:?}", c.s), g, w),
        (Some(Err(_)), Some(Err(_))) | (None, None) => Ok(()),
        (g, w) => Err(format!(
            "parsing {:?} in radix {}: {:?} want {:?}",
            c.s, c.radix, g.map(|r| r.map_err(|_| ())), w.map(|r| r.map_err(|_| ()))
        )),
    }
}

pub fn c02(run: &mut Run) {
    run.rule = "Arbitrary bit patterns and boundary values of both precisions, with arbitrary \
        derivative seeds, recorded or not: every method of the generic numeric interface is \
        compared with the underlying float; operations without derivative rule must panic. Random \
        texts in radix 2 to 36. Non-trivial: every value case; texts that the float accepts.";
    run.sub("f64", (60_000, 1_500_000), case, check::<f64>);
    run.sub("f32", (60_000, 1_500_000), case, check::<f32>);
    run.sub("refused", (2_000, 20_000), case, |c, o| {
        check_refused::<f64>(c, o)?;
        check_refused::<f32>(c, o)
    });
    run.sub("text", (40_000, 600_000), text, |c, o| {
        check_text::<f32>(c, o)?;
        check_text::<f64>(c, o)
    });
}
