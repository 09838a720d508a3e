//! C26 arguments of the wrong size
use crate::anf::*;
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::tapes::dv;
use advantage as adv;
use adv::drivers::*;
use adv::{ADouble, Function, FunctionChain, Tape};
use nalgebra::{DMatrix, DVector};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A function that does not look at the length of its input: missing numbers count as one,
/// surplus ones are ignored
struct Lax(Prog);

impl Function for Lax {
    fn n(&self) -> usize {
        self.0.n
    }
    fn m(&self) -> usize {
        self.0.m()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        let x: Vec<ADouble> = (0..self.0.n).map(|i| if i < x.nrows() { x[i] } else { ADouble::from(1.0) }).collect();
        PF(self.0.clone()).eval(DVector::from_vec(x))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SizeCase {
    pub pl: PlCase,
    /// right size plus this, but not below zero
    pub off: i8,
    pub fill: f64,
    pub smooth: bool,
    pub parts: u8,
}

fn size_case() -> BoxedStrategy<SizeCase> {
    (
        pl_case(0..6, 0..14, 0..6, true),
        prop_oneof![(1i8..5), (-5i8..0), (5i8..40)],
        prop_oneof![Just(0.0), Just(1.0), val()],
        any::<bool>(),
        1u8..4,
    )
        .prop_map(|(pl, off, fill, smooth, parts)| SizeCase { pl, off, fill, smooth, parts })
        .boxed()
}

fn check_sizes(c: &SizeCase, o: &mut Obs) -> Res {
    let Pl { p, x, dx, .. } = if c.smooth {
        let (x, dx) = c.pl.points();
        let p = compile(&c.pl.raw, Profile::Smooth, &[x.clone()], &[], false);
        Pl { p, x, dx, more: vec![], floor: 0.0 }
    } else {
        c.pl.build(Profile::Exact)
    };
    let (n, m, s) = (p.n, p.m(), p.num_abs());
    let wrong = |size: usize| -> Option<usize> {
        let w = (size as i64 + c.off as i64).max(0) as usize;
        Some(w).filter(|w| *w != size)
    };
    let off = |v: &[f64], size: usize| -> DVector<f64> { DVector::from_fn(size, |i, _| v.get(i).copied().unwrap_or(c.fill)) };
    o.nontrivial = n > 0 && m > 0 && !p.ins.is_empty();
    o.class(if c.off < 0 { "too short" } else { "too long" });
    o.class_if(s > 0, "absolute values");
    let show = || format!("{} at {:?}", p.show(), x);
    o.sample(|| format!("sizes off by {}: {}", c.off, show()));
    let refused = |what: &str, f: &mut dyn FnMut()| -> Res {
        ensure!(caught(f).is_none(), "{} accepted an argument of the wrong size (off by {}); {}", what, c.off, show());
        Ok(())
    };

    let lax = Lax(p.clone());
    let mut tape = total("Function::tape", || lax.tape(&dv(&x)))?;
    let before: Vec<u64> = tape.values().iter().map(|v| v.to_bits()).collect();
    let unchanged = |t: &dyn Tape, what: &str| -> Res {
        ensure!(
            t.values().iter().map(|v| v.to_bits()).collect::<Vec<_>>() == before,
            "a refused {} changed the tape; {}", what, show()
        );
        Ok(())
    };
    let one = DVector::from_element(m, 1.0);
    if let Some(w) = wrong(n) {
        refused("replay", &mut || tape.zero_order(&off(&x, w)))?;
        unchanged(&*tape, "replay")?;
        refused("forward sweep", &mut || drop(tape.first_order_forward(&off(&dx, w))))?;
        let xw = off(&x, w);
        let dxw = off(&dx, w);
        refused("jacobian_forward", &mut || drop(jacobian_forward(&lax, &xw)))?;
        refused("abs_normal", &mut || drop(abs_normal(&lax, &xw)))?;
        refused("generalized_jacobian (point)", &mut || drop(generalized_jacobian(&lax, &xw, &dv(&dx), &[0], None)))?;
        refused("generalized_jacobian (increment)", &mut || drop(generalized_jacobian(&lax, &dv(&x), &dxw, &[0], None)))?;
        refused("generalized_jacobian_tape", &mut || drop(generalized_jacobian_tape(lax.tape(&dv(&x)), &dxw, &[0], None)))?;
        if n == m || c.parts == 1 {
            let mut chain = FunctionChain::new(Lax(p.clone()));
            for _ in 1..c.parts {
                chain.append(Lax(p.clone()));
            }
            refused("generalized_jacobian_chain (point)", &mut || drop(generalized_jacobian_chain(&chain, xw.clone(), dv(&dx), None)))?;
            refused("generalized_jacobian_chain (increment)", &mut || drop(generalized_jacobian_chain(&chain, dv(&x), dxw.clone(), None)))?;
            refused("generalized_jacobian_chain (both)", &mut || drop(generalized_jacobian_chain(&chain, xw.clone(), dxw.clone(), None)))?;
        }
    }
    if let Some(w) = wrong(m) {
        if s == 0 {
            refused("reverse sweep", &mut || drop(tape.first_order_reverse(&off(one.as_slice(), w))))?;
        }
        let rows = c.parts as usize;
        let next = || GeneralizedJacobian {
            homogenous: DMatrix::from_element(rows, w, 1.0),
            inhomogenous: DVector::zeros(rows),
            multiplicity: 0,
        };
        refused("generalized_jacobian (downstream matrix)", &mut || drop(generalized_jacobian(&lax, &dv(&x), &dv(&dx), &[0], Some(next()))))?;
    }
    let rows = c.parts as usize;
    if let Some(w) = wrong(rows) {
        let next = || GeneralizedJacobian {
            homogenous: DMatrix::from_element(rows, m, 1.0),
            inhomogenous: DVector::zeros(w),
            multiplicity: 0,
        };
        refused("generalized_jacobian (downstream offset)", &mut || drop(generalized_jacobian(&lax, &dv(&x), &dv(&dx), &[0], Some(next()))))?;
    }

    let mut at = AbsNormalTape::new(lax.tape(&dv(&x)));
    if let Some(w) = wrong(n + s) {
        let v = DVector::from_element(w, c.fill);
        refused("replay of the switching tape", &mut || at.zero_order(&v))?;
        unchanged(&at, "replay of the switching tape")?;
        refused("forward sweep of the switching tape", &mut || drop(at.first_order_forward(&v)))?;
    }
    if let Some(w) = wrong(m + s) {
        let v = DVector::from_element(w, c.fill);
        refused("reverse sweep of the switching tape", &mut || drop(at.first_order_reverse(&v)))?;
    }
    let k = c.pl.k as usize;
    macro_rules! block {
        ($ty:ident) => {{
            let b = $ty::new(&at);
            let (r, cc) = (b.nrows(), b.ncols());
            let name = stringify!($ty);
            if let Some(w) = wrong(cc) {
                refused(&format!("{}::mul_right", name), &mut || drop(b.mul_right(&DMatrix::from_element(w, k, c.fill))))?;
            }
            if let Some(w) = wrong(r) {
                refused(&format!("{}::mul_left", name), &mut || drop(b.mul_left(&DMatrix::from_element(k, w, c.fill))))?;
            }
            if c.off >= 0 {
                let past = c.off as usize - 1;
                refused(&format!("{}::row", name), &mut || drop(b.row(r + past)))?;
                refused(&format!("{}::column", name), &mut || drop(b.column(cc + past)))?;
            }
        }};
    }
    block!(AbsNormalZ);
    block!(AbsNormalL);
    block!(AbsNormalJ);
    block!(AbsNormalY);

    // afterwards everything works as before
    total("replay", || tape.zero_order(&dv(&x)))?;
    unchanged(&*tape, "argument")?;
    let dy = total("forward sweep", || tape.first_order_forward(&dv(&dx)))?;
    let fresh = total("forward sweep", || lax.tape(&dv(&x)).first_order_forward(&dv(&dx)))?;
    ensure!(crate::tapes::agree_all(&dy, &fresh), "after refused calls the forward sweep gives {:?}, want {:?}; {}", dy, fresh, show());
    Ok(())
}

pub fn c26(run: &mut Run) {
    run.rule = "Random programs (smooth and with absolute values, 0-5 inputs and outputs) as \
        functions that do not look at the length of their input; every replay, sweep, driver and \
        block product is called with one argument too short or too long by 1 to 39 and must \
        panic; the tape is compared before and after. Non-trivial: at least one input, output \
        and operation.";
    run.sub("sizes", (25_000, 500_000), size_case, check_sizes);
}
