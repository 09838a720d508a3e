//! C04-C08 and C25: recorded and hand-built tapes, sweeps, Jacobian drivers
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::values::r32;
use advantage as adv;
use adv::drivers::*;
use adv::{AContext, AFloat, Float, Function, OpCode, Operation, Tape};
use nalgebra::{DMatrix, DVector};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

pub fn dv(v: &[f64]) -> DVector<f64> {
    DVector::from_column_slice(v)
}

/// Record a program; all registers become outputs when `all` is set
pub fn record<S: Float + std::fmt::Debug>(p: &Prog, x: &[f64], all: bool) -> impl Tape + Clone {
    let mut ctx = AContext::new();
    let mut xs: Vec<AFloat<S>> =
        x.iter().map(|v| AFloat::new(S::from(*v).unwrap(), S::zero())).collect();
    for v in xs.iter_mut() {
        ctx.set_indep(v);
    }
    let r = run_af(p, &xs);
    if all {
        ctx.set_dep_slice(&r);
    } else {
        for o in &p.outs {
            ctx.set_dep(&r[*o]);
        }
    }
    ctx.tape()
}

// ---------------------------------------------------------------------------------------------
// C04
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplayCase {
    raw: Raw,
    pts: Vec<Vec<f64>>,
    rec: Vec<u64>,
    dx: Vec<f64>,
    /// replays: Ok(i) at the valid point i, otherwise at arbitrary floats
    seq: Vec<(bool, u8, Vec<u64>)>,
    all: bool,
    boxed: bool,
    /// instructions evaluated in the other precision
    #[serde(default)]
    mixed: u32,
}

fn wild() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => val().prop_map(f64::to_bits),
        1 => any::<u64>(),
        1 => prop::sample::select(vec![f64::NAN, f64::INFINITY, -1.0, 0.0, -1e300, 1e308]).prop_map(f64::to_bits),
    ]
    .boxed()
}

fn replay_case() -> BoxedStrategy<ReplayCase> {
    (
        raw(1usize..5, 1..14, 0..4usize),
        pvec(vals(4), 1..4),
        pvec(wild(), 4),
        vals(4),
        pvec((prop::bool::weighted(0.7), any::<u8>(), pvec(wild(), 4)), 1..7),
        any::<bool>(),
        any::<bool>(),
        any::<u32>(),
    )
        .prop_map(|(raw, pts, rec, dx, seq, all, boxed, mixed)| ReplayCase { raw, pts, rec, dx, seq, all, boxed, mixed })
        .boxed()
}

fn check_replay<S: Float + std::fmt::Debug>(c: &ReplayCase, o: &mut Obs, f32mode: bool) -> Res {
    let n = c.raw.n;
    let pts: Vec<Vec<f64>> = c.pts.iter().map(|x| r32(&fit(x, n), f32mode)).collect();
    let p = compile(&c.raw, Profile::Full, &pts, &[], f32mode);
    let u = if f32mode { U32 } else { U64 };
    let dx = fit(&c.dx, n);
    let clean = |b: u64| {
        let f = f64::from_bits(b);
        if f32mode {
            S::from(f).and_then(|s| s.to_f64()).unwrap_or(0.0)
        } else {
            f
        }
    };
    let rec: Vec<f64> = (0..n).map(|i| clean(c.rec[i % 4])).collect();
    let all = c.all || f32mode;
    let mut tape: Box<dyn Tape> = if f32mode && c.boxed {
        o.class("mixed precision");
        let mut ctx = AContext::new();
        let mut xs: Vec<AFloat<f64>> = rec.iter().map(|v| AFloat::new(*v, 0.0)).collect();
        for v in xs.iter_mut() {
            ctx.set_indep(v);
        }
        let r = total("recording", || run_mixed(&p, &xs, c.mixed))?;
        ctx.set_dep_slice(&r);
        Box::new(ctx.tape())
    } else if c.boxed && !all {
        total("Function::tape", || PF(p.clone()).tape(&dv(&rec)))?
    } else {
        Box::new(total("recording", || record::<S>(&p, &rec, all))?)
    };
    let outs: Vec<usize> = if all { (0..p.nregs()).collect() } else { p.outs.clone() };
    o.sample(|| format!("{} recorded at {:?}, replays {}", p.show(), rec, c.seq.len()));
    let distinct = pts.iter().filter(|x| **x != rec).count();
    o.nontrivial = p.ins.len() >= 2 && distinct > 0 && c.seq.iter().any(|s| s.0);
    o.class_if(c.seq.iter().any(|s| !s.0), "replay at arbitrary floats in between");
    o.class_if(p.num_abs() > 0, "abs/max/min");
    ensure!(tape.num_deps() == outs.len() && tape.num_indeps() == n, "wrong tape dimensions");
    for (k, (good, i, bad)) in c.seq.iter().enumerate() {
        if !good {
            let x: Vec<f64> = (0..n).map(|j| f64::from_bits(bad[j % 4])).collect();
            total("zero_order", || tape.zero_order(&dv(&x)))?;
            continue;
        }
        let x = &pts[*i as usize % pts.len()];
        total("zero_order", || tape.zero_order(&dv(x)))?;
        let want = ref_delta(&p, x, &dx, u).expect("compiled program is valid");
        let y = tape.y();
        ensure!(tape.x() == dv(x), "replay {}: stored x is {:?}, want {:?}", k, tape.x(), x);
        for (j, r) in outs.iter().enumerate() {
            let w = &want[*r];
            ensure!(
                close(y[j], w.v, w.ev),
                "replay {} at {:?} (recorded at {:?}): output {} (register {}) is {:?}, want {:?} (+-{:e}); {}",
                k, x, rec, j, r, y[j], w.v, w.ev, p.show()
            );
        }
        let dy = total("forward sweep after replay", || tape.first_order_forward(&dv(&dx)))?;
        for (j, r) in outs.iter().enumerate() {
            let w = &want[*r];
            ensure!(
                close(dy[j], w.g[0], w.eg[0]),
                "replay {} at {:?}: forward sweep entry {} is {:?}, want {:?} (+-{:e}); {}",
                k, x, j, dy[j], w.g[0], w.eg[0], p.show()
            );
        }
    }
    Ok(())
}

pub fn c04(run: &mut Run) {
    run.rule = "Random programs recorded at arbitrary floats (also outside the domain, NaN and \
        infinities), then replayed at sequences of valid points mixed with arbitrary ones; after \
        each valid replay the outputs (or all registers) and a forward sweep are compared with the \
        reference at that point. f64 and f32 recordings, and recordings that change the precision. At arbitrary floats (domain ignored, zeros \
        of both signs, repeated points, intermediate values overwritten through values_mut) values \
        and sweeps are compared with a recording made there. Non-trivial: at least 2 instructions and \
        a valid replay point different from the recording point.";
    run.sub("f64", (50_000, 1_500_000), replay_case, |c, o| check_replay::<f64>(c, o, false));
    run.sub("f32", (15_000, 400_000), replay_case, |c, o| check_replay::<f32>(c, o, true));
    run.sub("anywhere", (40_000, 1_000_000), anywhere_case, check_anywhere);
    run.sub("refuses", (2_000, 20_000), replay_case, |c, o| {
        // an input of the wrong length is not evaluated
        let n = c.raw.n;
        let p = compile(&c.raw, Profile::Full, &[fit(&c.pts[0], n)], &[], false);
        let mut t = record::<f64>(&p, &fit(&c.pts[0], n), false);
        o.nontrivial = true;
        for len in [n - 1, n + 1] {
            ensure!(
                caught(|| t.zero_order(&DVector::zeros(len))).is_none(),
                "zero_order accepted {} values for {} inputs", len, n
            );
        }
        Ok(())
    });
    run.sub("long", (80, 2_000), || crate::long::long_case(18), |c, o| crate::long::check_long(c, o, crate::long::Long::Replay));
}

/// Programs without any domain, replayed anywhere
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyCase {
    n: usize,
    ins: Vec<(u8, u16, u16, u8, f64)>,
    pts: Vec<Vec<u64>>,
    /// point of the recording, then of the replays; with values to overwrite before
    seq: Vec<(u8, Vec<(u16, u64)>)>,
    dx: Vec<f64>,
}

fn anywhere_case() -> BoxedStrategy<AnyCase> {
    let coord = || {
        prop_oneof![
            3 => prop::sample::select(vec![0.0, -0.0, 1.0, -1.0, 1e-3]).prop_map(f64::to_bits),
            2 => wild(),
        ]
    };
    (
        1usize..4,
        pvec((any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>(), val()), 1..9),
        pvec(pvec(coord(), 3), 1..4),
        pvec((any::<u8>(), pvec((any::<u16>(), wild()), 0..3)), 2..7),
        vals(3),
    )
        .prop_map(|(n, ins, pts, seq, dx)| AnyCase { n, ins, pts, seq, dx })
        .boxed()
}

/// the same number up to rounding; an infinity or NaN is one on both sides
pub fn agree(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-6 * a.abs().min(b.abs()))
}
pub fn agree_all(a: &DVector<f64>, b: &DVector<f64>) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| agree(*a, *b))
}

fn check_anywhere(c: &AnyCase, o: &mut Obs) -> Res {
    let mut ins = vec![];
    for (op, a, b, k, v) in &c.ins {
        let r = c.n + ins.len();
        ins.push(any_ins(*op, *a as usize % r, *b as usize % r, *k, *v));
    }
    let p = Prog { n: c.n, ins, outs: vec![] };
    let pts: Vec<Vec<f64>> = c.pts.iter().map(|x| x[..c.n].iter().map(|b| f64::from_bits(*b)).collect()).collect();
    let at = |k: usize| &pts[c.seq[k].0 as usize % pts.len()];
    let dx = dv(&fit(&c.dx, c.n));
    let ones = DVector::from_element(p.nregs(), 1.0);
    let mut tape = total("recording", || record::<f64>(&p, at(0), true))?;
    let slots: Vec<usize> = tape.ops_iter().filter(|o| o.opcode != OpCode::Const && o.opcode != OpCode::Nop).map(|o| o.vid).collect();
    o.nontrivial = !slots.is_empty() && pts.iter().any(|x| x != at(0));
    o.class_if((1..c.seq.len()).any(|k| at(k) == at(k - 1)), "replay at the same point");
    o.class_if(c.seq.iter().any(|s| !s.1.is_empty()), "values overwritten");
    o.sample(|| format!("{} recorded at {:?}, replays at {:?}", p.show(), at(0), (1..c.seq.len()).map(at).collect::<Vec<_>>()));
    for k in 1..c.seq.len() {
        for (s, v) in &c.seq[k].1 {
            if !slots.is_empty() {
                let s = slots[*s as usize % slots.len()];
                tape.values_mut()[s] = f64::from_bits(*v);
            }
        }
        let x = dv(at(k));
        total("zero_order", || tape.zero_order(&x))?;
        let fresh = total("recording", || record::<f64>(&p, at(k), true))?;
        let show = || format!("{} recorded at {:?}, replay {} at {:?}", p.show(), at(0), k, at(k));
        let bits = |v: &DVector<f64>| v.iter().map(|v| if v.is_nan() { 0 } else { v.to_bits() }).collect::<Vec<_>>();
        ensure!(bits(&tape.x()) == bits(&x), "x is {:?}; {}", tape.x(), show());
        let (y, want) = (tape.y(), fresh.y());
        ensure!(agree_all(&y, &want), "values {:?}, a recording has {:?}; {}", y.as_slice(), want.as_slice(), show());
        let (d, want) = (tape.first_order_forward(&dx), fresh.first_order_forward(&dx));
        ensure!(agree_all(&d, &want), "forward sweep along {:?} gives {:?}, on a recording {:?}; {}", dx, d.as_slice(), want.as_slice(), show());
        if tape.num_abs() == 0 {
            let (d, want) = (tape.first_order_reverse(&ones), fresh.first_order_reverse(&ones));
            ensure!(agree_all(&d, &want), "reverse sweep gives {:?}, on a recording {:?}; {}", d.as_slice(), want.as_slice(), show());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C05
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Indep(f64),
    Plain(f64),
    Step(u8, u16, u16, u8, f64),
    Dep(u16),
    /// declare a number that exists already, recorded or not
    Reindep(u16),
    IndepVec(f64, u8),
    DepSlice(Vec<u16>),
    /// change of precision, to the same one
    Cast(u16),
    Snap,
    CloneSnap(u16),
    Replay(u16, Vec<f64>),
    DropSnap(u16),
}

fn act() -> BoxedStrategy<Act> {
    prop_oneof![
        3 => val().prop_map(Act::Indep),
        1 => val().prop_map(Act::Plain),
        8 => (any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>(), val())
            .prop_map(|(o, a, b, k, c)| Act::Step(o, a, b, k, c)),
        3 => any::<u16>().prop_map(Act::Dep),
        1 => any::<u16>().prop_map(Act::Reindep),
        1 => (val(), 0u8..5).prop_map(|(v, n)| Act::IndepVec(v, n)),
        1 => pvec(any::<u16>(), 0..5).prop_map(Act::DepSlice),
        1 => any::<u16>().prop_map(Act::Cast),
        3 => Just(Act::Snap),
        1 => any::<u16>().prop_map(Act::CloneSnap),
        2 => (any::<u16>(), vals(3)).prop_map(|(i, v)| Act::Replay(i, v)),
        1 => any::<u16>().prop_map(Act::DropSnap),
    ]
    .boxed()
}

/// any operation, no domain restriction: the structure does not depend on values
pub fn any_ins(op: u8, a: usize, b: usize, k: u8, c: f64) -> Ins {
    use Bin::*;
    let (x, y) = match k % 4 {
        0 | 1 => (Opd::R(a), Opd::R(b)),
        2 => (Opd::R(a), Opd::F(c)),
        _ => (Opd::F(c), Opd::R(b)),
    };
    let act = |o: Opd| if let Opd::F(c) = o { Opd::C(c) } else { o };
    match op % 30 {
        0 | 1 => Ins::Bin(Add, x, y, false),
        2 | 3 => Ins::Bin(Sub, x, y, k & 8 != 0 && matches!(x, Opd::R(_))),
        4 | 5 => Ins::Bin(Mul, x, y, false),
        6 => Ins::Bin(Div, x, y, k & 8 != 0 && matches!(x, Opd::R(_))),
        7 => Ins::Un(Un::Sin, a),
        8 => Ins::Un(Un::Cos, a),
        9 => Ins::Un(Un::Tan, a),
        10 => Ins::Un(Un::Exp, a),
        11 => Ins::Un(Un::Ln, a),
        12 => Ins::Un(Un::Asin, a),
        13 => Ins::Un(Un::Acos, a),
        14 => Ins::Un(Un::Atan, a),
        15 => Ins::Un(Un::Sqrt, a),
        16 => Ins::Un(Un::Cbrt, a),
        17 => Ins::Un(Un::Neg, a),
        18 => Ins::Un(Un::Powi(k as i32 % 7 - 2), a),
        19 => Ins::Bin(Powf, act(x), act(y), false),
        20 | 21 => Ins::Un(Un::Abs, a),
        22 => Ins::Bin(Max, act(x), act(y), false),
        23 => Ins::Bin(Min, act(x), act(y), false),
        24 => Ins::Bin(AbsSub, act(x), act(y), false),
        25 => Ins::Bin(Hypot, act(x), act(y), false),
        26 => Ins::MulAdd(a, b, a),
        27 => Ins::Un(Un::SinCos(k & 1 == 1), a),
        28 => Ins::Un([Un::Recip, Un::Exp2, Un::Log2, Un::Log10][k as usize % 4], a),
        _ => Ins::Un([Un::ToDeg, Un::ToRad][k as usize % 2], a),
    }
}

fn eqb(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}

struct Snap<T> {
    t: T,
    indeps: Vec<usize>,
    deps: Vec<usize>,
    ops: Vec<Operation>,
    vals: Vec<f64>,
    abs: usize,
    /// how much of the history is on it
    hist: (usize, usize),
}

/// What has happened, to be repeated at other input values
#[derive(Clone)]
enum Ev {
    In,
    ReIn(usize),
    Plain(f64),
    Step(Ins),
    Copy(usize),
}

fn repeat(evs: &[Ev], deps: &[(usize, usize)], x: &[f64]) -> Vec<f64> {
    let mut r: Vec<AFloat<f64>> = vec![];
    let mut next = x.iter();
    let mut y = vec![0.0; deps.len()];
    let mut at = 0;
    for k in 0..=evs.len() {
        while at < deps.len() && deps[at].0 == k {
            y[at] = r[deps[at].1].value();
            at += 1;
        }
        match evs.get(k) {
            None => {}
            Some(Ev::In) => r.push(AFloat::new(*next.next().unwrap(), 0.0)),
            Some(Ev::ReIn(i)) => r[*i] = AFloat::new(*next.next().unwrap(), 0.0),
            Some(Ev::Copy(i)) => r.push(r[*i]),
            Some(Ev::Plain(v)) => r.push(AFloat::new(*v, 0.0)),
            Some(Ev::Step(i)) => {
                let v = step_af(i, &r);
                r.push(v)
            }
        }
    }
    y
}

fn frozen<T: Tape>(s: &Snap<T>) -> Res {
    ensure!(s.t.indeps() == &s.indeps[..], "inputs of a tape changed");
    ensure!(s.t.deps() == &s.deps[..], "outputs of a tape changed");
    ensure!(s.t.ops_iter().collect::<Vec<_>>() == s.ops, "operations of a tape changed");
    ensure!(eqb(s.t.values(), &s.vals), "values of a tape changed");
    ensure!(s.t.num_abs() == s.abs, "num_abs changed");
    Ok(())
}

/// Every operation only uses values defined before it, and defines a new one
pub fn well_formed(t: &dyn Tape) -> Res {
    let len = t.values().len();
    let mut defined: HashSet<usize> = HashSet::new();
    for i in t.indeps() {
        ensure!(*i < len, "input id {} out of range", i);
        ensure!(defined.insert(*i), "input id {} twice", i);
    }
    for (k, op) in t.ops_iter().enumerate() {
        if op.opcode == OpCode::Nop {
            continue;
        }
        for a in [op.arg1, op.arg2].into_iter().flatten() {
            ensure!(defined.contains(&a), "operation {} ({:?}) uses value {} before it is defined", k, op, a);
        }
        let want = match op.opcode {
            OpCode::Const => (false, false),
            OpCode::Add | OpCode::Sub | OpCode::Mul | OpCode::Div | OpCode::Powf => (true, true),
            _ => (true, false),
        };
        ensure!(
            (op.arg1.is_some(), op.arg2.is_some()) == want,
            "operation {} has the wrong operands: {:?}", k, op
        );
        ensure!(op.vid < len, "operation {} writes out of range: {:?}", k, op);
        ensure!(defined.insert(op.vid), "operation {} redefines value {}", k, op.vid);
    }
    for d in t.deps() {
        ensure!(defined.contains(d), "output {} is never defined", d);
    }
    ensure!(t.max_id() < len || len == 0, "max_id {} but {} values", t.max_id(), len);
    let back: Vec<Operation> = t.ops_iter().rev().collect();
    let mut fwd: Vec<Operation> = t.ops_iter().collect();
    fwd.reverse();
    ensure!(back == fwd, "backward iteration is not the reverse of forward iteration");
    Ok(())
}

fn check_history(acts: &Vec<Act>, o: &mut Obs) -> Res {
    let mut ctx = AContext::new();
    let mut regs: Vec<AFloat<f64>> = vec![];
    let mut recorded: Vec<bool> = vec![];
    let mut indeps: Vec<f64> = vec![];
    let mut deps: Vec<f64> = vec![];
    let mut abs = 0;
    let mut evs: Vec<Ev> = vec![];
    let mut dep_at: Vec<(usize, usize)> = vec![];
    let mut again = false;
    let mut snaps = vec![];
    let mut nsnaps = 0;
    let mut replays = 0;
    for (k, a) in acts.iter().enumerate() {
        let step = || -> Res {
            match a {
                Act::Indep(v) => {
                    let x = if k % 2 == 0 {
                        ctx.new_indep(*v)
                    } else {
                        let mut x = AFloat::new(*v, 1.0);
                        ctx.set_indep(&mut x);
                        x
                    };
                    ensure!(x.value() == *v, "declaring an input changed its value");
                    regs.push(x);
                    recorded.push(true);
                    indeps.push(*v);
                    evs.push(Ev::In);
                }
                Act::IndepVec(v, n) => {
                    let xs = ctx.new_indep_vec(*n as usize, *v);
                    ensure!(xs.len() == *n as usize && xs.iter().all(|x| x.value() == *v), "new inputs {:?}", xs);
                    for x in xs {
                        regs.push(x);
                        recorded.push(true);
                        indeps.push(*v);
                        evs.push(Ev::In);
                    }
                }
                Act::DepSlice(l) => {
                    if regs.is_empty() {
                        return Ok(());
                    }
                    let l: Vec<usize> = l.iter().map(|i| *i as usize % regs.len()).collect();
                    ctx.set_dep_slice(&l.iter().map(|r| regs[*r]).collect::<Vec<_>>());
                    for r in l {
                        deps.push(regs[r].value());
                        dep_at.push((evs.len(), r));
                    }
                }
                Act::Cast(i) => {
                    if regs.is_empty() {
                        return Ok(());
                    }
                    let r = *i as usize % regs.len();
                    regs.push(AFloat::<f64>::cast(regs[r]));
                    recorded.push(recorded[r]);
                    evs.push(Ev::Copy(r));
                }
                Act::Reindep(i) => {
                    if regs.is_empty() {
                        return Ok(());
                    }
                    let r = *i as usize % regs.len();
                    again |= recorded[r];
                    let v = regs[r].value();
                    ctx.set_indep(&mut regs[r]);
                    let w = regs[r].value();
                    ensure!(v == w || (v.is_nan() && w.is_nan()), "declaring an input changed its value");
                    recorded[r] = true;
                    indeps.push(v);
                    evs.push(Ev::ReIn(r));
                }
                Act::Plain(v) => {
                    evs.push(Ev::Plain(*v));
                    regs.push(AFloat::new(*v, 0.0));
                    recorded.push(false);
                }
                Act::Step(op, a, b, kk, c) => {
                    if regs.is_empty() {
                        return Ok(());
                    }
                    let (a, b) = (*a as usize % regs.len(), *b as usize % regs.len());
                    let i = any_ins(*op, a, b, *kk, *c);
                    let r = step_af(&i, &regs);
                    let used = |r: usize| recorded[r];
                    let rec = match i {
                        Ins::Un(_, a) => used(a),
                        Ins::MulAdd(a, b, c) => used(a) || used(b) || used(c),
                        Ins::Bin(_, x, y, _) => [x, y].iter().any(|o| matches!(o, Opd::R(r) if used(*r))),
                        Ins::Const(_) => false,
                    };
                    if rec && i.is_abs() {
                        abs += 1;
                    }
                    evs.push(Ev::Step(i));
                    regs.push(r);
                    recorded.push(rec);
                }
                Act::Dep(i) => {
                    if regs.is_empty() {
                        return Ok(());
                    }
                    let r = *i as usize % regs.len();
                    ctx.set_dep(&regs[r]);
                    deps.push(regs[r].value());
                    dep_at.push((evs.len(), r));
                }
                Act::Snap => {
                    let t = ctx.tape();
                    well_formed(&t)?;
                    ensure!(t.num_indeps() == indeps.len(), "{} inputs, declared {}", t.num_indeps(), indeps.len());
                    ensure!(t.num_deps() == deps.len(), "{} outputs, declared {}", t.num_deps(), deps.len());
                    ensure!(t.num_abs() == abs, "num_abs {} want {}", t.num_abs(), abs);
                    ensure!(eqb(t.x().as_slice(), &indeps), "x {:?} want {:?}", t.x(), indeps);
                    ensure!(eqb(t.y().as_slice(), &deps), "y {:?} want {:?}", t.y(), deps);
                    ensure!(ctx.indeps() == t.indeps() && ctx.deps() == t.deps(), "recording and tape differ");
                    ensure!(ctx.operations() == t.ops_iter().collect::<Vec<_>>(), "operations differ");
                    ensure!(eqb(&ctx.values(), t.values()), "values differ");
                    let s = Snap {
                        indeps: t.indeps().to_vec(),
                        deps: t.deps().to_vec(),
                        ops: t.ops_iter().collect(),
                        vals: t.values().to_vec(),
                        abs,
                        hist: (evs.len(), dep_at.len()),
                        t,
                    };
                    snaps.push(s);
                    nsnaps += 1;
                }
                Act::CloneSnap(i) => {
                    if !snaps.is_empty() {
                        let s = &snaps[*i as usize % snaps.len()];
                        let c = Snap {
                            t: s.t.clone(),
                            indeps: s.indeps.clone(),
                            deps: s.deps.clone(),
                            ops: s.ops.clone(),
                            vals: s.vals.clone(),
                            abs: s.abs,
                            hist: s.hist,
                        };
                        snaps.push(c);
                    }
                }
                Act::Replay(i, v) => {
                    if !snaps.is_empty() {
                        let l = snaps.len();
                        let s = &mut snaps[*i as usize % l];
                        let x = fit(v, s.indeps.len());
                        s.t.zero_order(&dv(&x));
                        ensure!(eqb(s.t.x().as_slice(), &x), "x after a replay");
                        let want = repeat(&evs[..s.hist.0], &dep_at[..s.hist.1], &x);
                        let y = s.t.y();
                        ensure!(
                            agree_all(&y, &dv(&want)),
                            "a replay at {:?} gives {:?}, the same steps there {:?}", x, y.as_slice(), want
                        );
                        s.vals = s.t.values().to_vec();
                        replays += 1;
                    }
                }
                Act::DropSnap(i) => {
                    if !snaps.is_empty() {
                        let l = snaps.len();
                        snaps.swap_remove(*i as usize % l);
                    }
                }
            }
            Ok(())
        };
        total("recording", step)??;
        for s in &snaps {
            frozen(s).map_err(|e| format!("after step {} ({:?}): {}", k, a, e))?;
        }
        let now = ctx.values();
        ensure!(
            ctx.indeps().iter().zip(&indeps).all(|(i, v)| now[*i] == *v || (now[*i].is_nan() && v.is_nan())),
            "after step {} ({:?}): the recording's input values changed", k, a
        );
        ensure!(
            ctx.deps().len() == deps.len()
                && ctx.deps().iter().zip(&deps).all(|(i, v)| now[*i] == *v || (now[*i].is_nan() && v.is_nan())),
            "after step {} ({:?}): the recording's output values changed", k, a
        );
    }
    drop(ctx);
    for s in &snaps {
        frozen(s).map_err(|e| format!("after the recording is gone: {}", e))?;
    }
    o.nontrivial = nsnaps > 0 && indeps.len() > 0 && regs.len() > indeps.len();
    o.class_if(abs > 0, "abs/max/min");
    o.class_if(again, "a recorded number declared as input");
    o.class_if(replays > 0 && nsnaps > 1, "replays among several tapes");
    o.sample(|| format!("{:?}", acts));
    Ok(())
}

pub fn c05(run: &mut Run) {
    run.rule = "Random histories of declaring inputs and outputs (one or several at once), any operations, taking, cloning, \
        replaying and dropping tapes, also declaring recorded numbers as inputs again; after every \
        step each live tape is compared with its frozen copy and the recording with a model, and \
        a replay with the history repeated on plain numbers. Non-trivial: a tape of a recording with inputs and \
        operations.";
    run.sub("history", (40_000, 1_000_000), || pvec(act(), 1..30), check_history);
    run.sub("function-tape", (20_000, 400_000), || {
        (raw(0usize..6, 0..12, 0..6usize), vals(6))
    }, |(raw, x), o| {
        let x = fit(x, raw.n);
        let p = compile(raw, Profile::Full, &[x.clone()], &[], false);
        let t = total("Function::tape", || PF(p.clone()).tape(&dv(&x)))?;
        well_formed(&*t)?;
        let want = ref_values(&p, &x, U64).unwrap();
        o.nontrivial = p.ins.len() > 1 && p.m() > 0;
        o.class_if(p.n == 0, "no inputs");
        o.sample(|| p.show());
        ensure!(t.num_indeps() == p.n && t.num_deps() == p.m(), "dimensions");
        ensure!(t.num_abs() == p.num_abs(), "num_abs {} want {}", t.num_abs(), p.num_abs());
        ensure!(t.x() == dv(&x), "x");
        let y = t.y();
        for (j, r) in p.outs.iter().enumerate() {
            ensure!(close(y[j], want[*r].v, want[*r].ev), "y[{}] = {:?} want {:?}", j, y[j], want[*r].v);
        }
        Ok(())
    });
    run.sub("long", (80, 2_000), || crate::long::long_case(18), |c, o| crate::long::check_long(c, o, crate::long::Long::Snapshot));
}

// ---------------------------------------------------------------------------------------------
// C06, C07
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SweepCase {
    raw: Raw,
    pts: Vec<Vec<f64>>,
    dirs: Vec<Vec<f64>>,
    w: Vec<Vec<f64>>,
    coef: (f64, f64),
    /// replay at the points (otherwise the tape is recorded there)
    replay: bool,
}

fn sweep_case(max_n: usize, len: std::ops::Range<usize>, max_m: usize) -> BoxedStrategy<SweepCase> {
    (
        raw(0..max_n, len, 0..max_m),
        pvec(vals(4), 1..3),
        pvec(vals(5), 2),
        pvec(vals(5), 1..3),
        (val(), val()),
        any::<bool>(),
    )
        .prop_map(|(raw, pts, dirs, w, coef, replay)| SweepCase { raw, pts, dirs, w, coef, replay })
        .boxed()
}

struct Prepared {
    p: Prog,
    pts: Vec<Vec<f64>>,
}

fn prepare(c: &SweepCase) -> Prepared {
    let n = c.raw.n;
    let pts: Vec<Vec<f64>> = c.pts.iter().map(|x| fit(x, n)).collect();
    let p = compile(&c.raw, Profile::Smooth, &pts, &[], false);
    Prepared { p, pts }
}

fn each_point(c: &SweepCase, f: &mut dyn FnMut(&Prog, &[f64], &dyn Tape) -> Res) -> Res {
    let Prepared { p, pts } = prepare(c);
    let mut tape: Box<dyn Tape> = Box::new(total("recording", || record::<f64>(&p, &pts[0], false))?);
    for (k, x) in pts.iter().enumerate() {
        if k > 0 {
            if c.replay {
                total("zero_order", || tape.zero_order(&dv(x)))?;
            } else {
                tape = total("Function::tape", || PF(p.clone()).tape(&dv(x)))?;
            }
        }
        f(&p, x, &*tape)?;
    }
    Ok(())
}

fn combo(g: &[Nd], outs: &[usize], n: usize, dx: &[f64]) -> Vec<(f64, f64)> {
    outs.iter()
        .map(|r| {
            let mut v = 0.0;
            let mut e = 0.0;
            for j in 0..n {
                v += g[*r].g[j] * dx[j];
                e += (g[*r].eg[j] + 1e-15 * n as f64 * g[*r].g[j].abs()) * dx[j].abs();
            }
            (v, e)
        })
        .collect()
}

pub fn c06(run: &mut Run) {
    run.rule = "Random differentiable programs (0-5 inputs, 0-5 outputs, repeated outputs, \
        constants and inputs as outputs) taped at or replayed to random points; the forward sweep \
        is compared with the reference Jacobian times the direction, with its linear combinations \
        and with the derivative carried without a tape. Non-trivial: a non-zero direction and at \
        least 2 instructions.";
    run.sub("forward", (60_000, 1_500_000), || sweep_case(6, 1..16, 6), |c, o| {
        let n = c.raw.n;
        each_point(c, &mut |p, x, tape| {
            let g = ref_grad(p, x, U64).expect("valid");
            let d: Vec<Vec<f64>> = c.dirs.iter().map(|d| fit(d, n)).collect();
            let (a, b) = c.coef;
            let mix: Vec<f64> = (0..n).map(|i| a * d[0][i] + b * d[1][i]).collect();
            let sweep = |dx: &[f64]| total("forward sweep", || tape.first_order_forward(&dv(dx)));
            let f0 = sweep(&d[0])?;
            let f1 = sweep(&d[1])?;
            let fm = sweep(&mix)?;
            o.nontrivial = p.ins.len() >= 2 && d[0].iter().any(|x| *x != 0.0) && p.m() > 0;
            o.sample(|| format!("{} at {:?} direction {:?}", p.show(), x, d[0]));
            ensure!(f0.len() == p.m(), "sweep returned {} entries", f0.len());
            for (dx, f) in [(&d[0], &f0), (&d[1], &f1), (&mix, &fm)] {
                for (j, (w, e)) in combo(&g, &p.outs, n, dx).into_iter().enumerate() {
                    ensure!(
                        close(f[j], w, e),
                        "sweep at {:?} along {:?}: entry {} is {:?}, want {:?} (+-{:e}); {}",
                        x, dx, j, f[j], w, e, p.show()
                    );
                }
            }
            // linearity
            let e: Vec<f64> = combo(&g, &p.outs, n, &mix).iter().map(|t| t.1).collect();
            let e0: Vec<f64> = combo(&g, &p.outs, n, &d[0]).iter().map(|t| t.1).collect();
            let e1: Vec<f64> = combo(&g, &p.outs, n, &d[1]).iter().map(|t| t.1).collect();
            for j in 0..p.m() {
                let lin = a * f0[j] + b * f1[j];
                ensure!(
                    close(fm[j], lin, e[j] + a.abs() * e0[j] + b.abs() * e1[j] + 1e-14 * lin.abs()),
                    "not linear: {:?} vs {:?}", fm[j], lin
                );
            }
            let z = sweep(&vec![0.0; n])?;
            ensure!(z.iter().all(|v| *v == 0.0), "zero direction gives {:?}", z);
            // without a tape
            let xs: Vec<AFloat<f64>> = (0..n).map(|i| AFloat::new(x[i], d[0][i])).collect();
            let r = run_af(p, &xs);
            for j in 0..p.m() {
                let t = r[p.outs[j]].dvalue();
                ensure!(close(f0[j], t, 2.0 * e0[j]), "tape {:?} tapeless {:?}", f0[j], t);
            }
            Ok(())
        })
    });
    run.sub("single-op", (40_000, 500_000), || sweep_case(3, 1..3, 3), |c, o| {
        let n = c.raw.n;
        o.nontrivial = true;
        each_point(c, &mut |p, x, tape| {
            let g = ref_grad(p, x, U64).expect("valid");
            let dx = fit(&c.dirs[0], n);
            let f = total("forward sweep", || tape.first_order_forward(&dv(&dx)))?;
            o.sample(|| format!("{} at {:?} direction {:?}", p.show(), x, dx));
            for (j, (w, e)) in combo(&g, &p.outs, n, &dx).into_iter().enumerate() {
                ensure!(close(f[j], w, e), "{} at {:?} along {:?}: {:?} want {:?}", p.show(), x, dx, f[j], w);
            }
            Ok(())
        })
    });
    run.sub("range", (30000, 500000), crate::range::range_case, |c, o| crate::range::check_range(c, o, crate::range::How::Forward));
    run.sub("long", (80, 2_000), || crate::long::long_case(18), |c, o| crate::long::check_long(c, o, crate::long::Long::Forward));
}

fn check_reverse(c: &SweepCase, o: &mut Obs) -> Res {
    let n = c.raw.n;
    each_point(c, &mut |p, x, tape| {
        let g = ref_grad(p, x, U64).expect("valid");
        let m = p.m();
        o.nontrivial = p.ins.len() >= 2 && n > 0 && m > 0;
        let dup = p.outs.iter().collect::<HashSet<_>>().len() < m;
        o.class_if(dup, "output listed twice");
        o.class_if(p.outs.iter().any(|r| *r < n), "input as output");
        o.class_if(p.outs.iter().any(|r| *r >= n && p.ins.iter().enumerate().any(|(k, i)| k + n > *r && uses(i, *r))), "output used by later operations");
        for w in &c.w {
            let w = fit(w, m);
            o.sample(|| format!("{} at {:?} weights {:?}", p.show(), x, w));
            let xbar = total("reverse sweep", || tape.first_order_reverse(&dv(&w)))?;
            ensure!(xbar.len() == n, "sweep returned {} entries", xbar.len());
            for i in 0..n {
                let mut want = 0.0;
                let mut err = 0.0;
                for (j, r) in p.outs.iter().enumerate() {
                    want += w[j] * g[*r].g[i];
                    err += w[j].abs() * (g[*r].eg[i] + 1e-15 * (m + p.ins.len()) as f64 * g[*r].g[i].abs());
                }
                ensure!(
                    close(xbar[i], want, err),
                    "reverse sweep at {:?} with {:?}: entry {} is {:?}, want {:?} (+-{:e}); {}",
                    x, w, i, xbar[i], want, err, p.show()
                );
            }
            // duality with the forward sweep
            let dx = fit(&c.dirs[0], n);
            let dy = total("forward sweep", || tape.first_order_forward(&dv(&dx)))?;
            let (mut lhs, mut rhs, mut err) = (0.0, 0.0, 0.0);
            for j in 0..m {
                lhs += w[j] * dy[j];
                for i in 0..n {
                    let gg = &g[p.outs[j]];
                    err += w[j].abs() * dx[i].abs() * (2.0 * gg.eg[i] + 1e-14 * (m + n) as f64 * gg.g[i].abs());
                }
            }
            for i in 0..n {
                rhs += xbar[i] * dx[i];
            }
            ensure!(close(lhs, rhs, err), "<w,J dx> = {:?} but <J'w,dx> = {:?}", lhs, rhs);
        }
        Ok(())
    })
}

pub fn uses(i: &Ins, r: usize) -> bool {
    match *i {
        Ins::Un(_, a) => a == r,
        Ins::Bin(_, x, y, _) => x == Opd::R(r) || y == Opd::R(r),
        Ins::MulAdd(a, b, c) => a == r || b == r || c == r,
        Ins::Const(_) => false,
    }
}

pub fn c07(run: &mut Run) {
    run.rule = "Random differentiable programs (0-5 inputs, 0-5 outputs; outputs repeated, \
        constant, inputs or used by later operations) taped at or replayed to random points; the \
        reverse sweep with random weights is compared with the transposed reference Jacobian and \
        with the forward sweep (inner products). Non-trivial: at least 2 instructions, an input \
        and an output.";
    run.sub("reverse", (60_000, 1_500_000), || sweep_case(6, 1..16, 6), check_reverse);
    run.sub("single-op", (40_000, 500_000), || sweep_case(3, 1..3, 3), |c, o| {
        check_reverse(c, o)?;
        o.nontrivial = true;
        Ok(())
    });
    run.sub("range", (30000, 500000), crate::range::range_case, |c, o| crate::range::check_range(c, o, crate::range::How::Reverse));
    run.sub("long", (80, 2_000), || crate::long::long_case(18), |c, o| crate::long::check_long(c, o, crate::long::Long::Reverse));
}

// ---------------------------------------------------------------------------------------------
// C08
// ---------------------------------------------------------------------------------------------

pub fn pools() -> &'static [rayon::ThreadPool; 3] {
    static P: std::sync::OnceLock<[rayon::ThreadPool; 3]> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        [1, 2, 6].map(|k| rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JacCase {
    raw: Raw,
    x: Vec<f64>,
    pool: u8,
}

pub fn c08(run: &mut Run) {
    run.rule = "Random differentiable programs with 0-40 (some up to 300) inputs and outputs; both drivers, in \
        thread pools of 1, 2 and 6 workers, are compared entry by entry with the reference \
        Jacobian. Tapes with an absolute value and an output must make the reverse driver panic. \
        Non-trivial: at least 2 inputs and 2 outputs.";
    let gen = |n: std::ops::Range<usize>, len: std::ops::Range<usize>, m: std::ops::Range<usize>| {
        (raw(n, len, m), vals(7), 0u8..3).prop_map(|(raw, x, pool)| JacCase { raw, x, pool }).boxed()
    };
    let check = |c: &JacCase, o: &mut Obs| -> Res {
        let n = c.raw.n;
        let x = fit(&c.x, n);
        let p = compile(&c.raw, Profile::Smooth, &[x.clone()], &[], false);
        let g = ref_grad(&p, &x, U64).expect("valid");
        let m = p.m();
        o.nontrivial = n >= 2 && m >= 2;
        o.class_if(n > 16 && m > 16, "more than 16x16");
        o.class_if(n == 0 || m == 0, "empty");
        o.sample(|| format!("{} at {:?} workers {}", p.show(), x, [1, 2, 6][c.pool as usize]));
        let f = PF(p.clone());
        let pool = &pools()[c.pool as usize];
        let fwd = total("jacobian_forward", || pool.install(|| jacobian_forward(&f, &dv(&x))))?;
        let tape = total("Function::tape", || f.tape(&dv(&x)))?;
        let rev = total("jacobian_reverse", || pool.install(|| jacobian_reverse(&*tape)))?;
        let cmp = |j: &DMatrix<f64>, what: &str| -> Res {
            ensure!(j.nrows() == m && j.ncols() == n, "{} is {}x{}, want {}x{}", what, j.nrows(), j.ncols(), m, n);
            for i in 0..m {
                for k in 0..n {
                    let w = &g[p.outs[i]];
                    ensure!(
                        close(j[(i, k)], w.g[k], w.eg[k]),
                        "{} entry ({}, {}) is {:?}, want {:?} (+-{:e}); {} at {:?}",
                        what, i, k, j[(i, k)], w.g[k], w.eg[k], p.show(), x
                    );
                }
            }
            Ok(())
        };
        cmp(&fwd, "jacobian_forward")?;
        cmp(&rev, "jacobian_reverse")
    };
    run.sub("small", (30_000, 600_000), || gen(0..6, 0..14, 0..6), check);
    run.sub("large", (3_000, 60_000), || gen(0..41, 4..40, 0..41), check);
    run.sub("wide", (250, 5_000), || prop_oneof![
        gen(0..301, 4..30, 0..6),
        gen(0..6, 4..30, 0..301),
        gen(60..140, 4..30, 60..140),
    ].boxed(), check);
    run.sub("abs-refused", (10_000, 100_000), || gen(1..4, 2..10, 1..4), |c, o| {
        let n = c.raw.n;
        let x = fit(&c.x, n);
        let p = compile(&c.raw, Profile::Full, &[x.clone()], &[], false);
        let tape = total("Function::tape", || PF(p.clone()).tape(&dv(&x)))?;
        let abs = tape.ops_iter().any(|o| o.opcode == OpCode::Abs);
        if !abs {
            return o.discard("no absolute value on the tape");
        }
        o.nontrivial = true;
        o.sample(|| p.show());
        let pool = &pools()[c.pool as usize];
        let r = caught(|| pool.install(|| jacobian_reverse(&*tape)));
        ensure!(r.is_none(), "jacobian_reverse returned {:?} for {}", r, p.show());
        ensure!(
            caught(|| tape.first_order_reverse(&DVector::from_element(p.m(), 1.0))).is_none(),
            "reverse sweep returned on {}", p.show()
        );
        Ok(())
    });
    run.sub("range", (30000, 500000), crate::range::range_case, |c, o| crate::range::check_range(c, o, crate::range::How::Drivers));
    run.sub("long", (80, 2_000), || crate::long::long_case(18), |c, o| crate::long::check_long(c, o, crate::long::Long::Drivers));
}

// ---------------------------------------------------------------------------------------------
// C25 hand-built tapes
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct VecTape {
    pub indeps: Vec<usize>,
    pub deps: Vec<usize>,
    pub ops: Vec<Operation>,
    pub vals: Vec<f64>,
}

impl Tape for VecTape {
    fn indeps(&self) -> &[usize] {
        &self.indeps
    }
    fn deps(&self) -> &[usize] {
        &self.deps
    }
    fn values(&self) -> &[f64] {
        &self.vals
    }
    fn values_mut(&mut self) -> &mut [f64] {
        &mut self.vals
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = Operation> + 'a> {
        Box::new(self.ops.iter().copied())
    }
}

/// Spell a Prims program out with the public constructors. `perm` orders the value ids,
/// `extra` inserts no-ops and unused constants.
pub fn build_tape(p: &Prog, perm: &[u32], extra: &[u8]) -> VecTape {
    let l = lower(p);
    let nodes = l.n + l.ops.len();
    let pad = extra.iter().filter(|e| **e % 3 == 1).count();
    let total = nodes + pad;
    let mut order: Vec<usize> = (0..total).collect();
    order.sort_by_key(|i| (perm.get(*i % perm.len().max(1)).copied().unwrap_or(0).wrapping_mul(2654435761).rotate_left(*i as u32 % 31), *i));
    let mut id = vec![0; total];
    for (pos, node) in order.iter().enumerate() {
        id[*node] = pos;
    }
    let mut vals = vec![0.0; total + extra.first().map_or(0, |e| *e as usize % 3)];
    let mut ops = vec![];
    let mut next_pad = nodes;
    for (k, o) in l.ops.iter().enumerate() {
        if let Some(e) = extra.get(k) {
            match e % 3 {
                1 => {
                    ops.push(Operation::constant(id[next_pad]));
                    vals[id[next_pad]] = 7.5;
                    next_pad += 1;
                }
                2 => ops.push(Operation::nop()),
                _ => {}
            }
        }
        let r = id[l.n + k];
        ops.push(match *o {
            Low::Lit(c) => {
                vals[r] = c;
                Operation::constant(r)
            }
            Low::MulAdd(..) => unreachable!(),
            Low::Un(u, a) => {
                let a = id[a];
                match u {
                    Un::Sin => Operation::sin(r, a),
                    Un::Cos => Operation::cos(r, a),
                    Un::Tan => Operation::tan(r, a),
                    Un::Abs => Operation::abs(r, a),
                    Un::Exp => Operation::exp(r, a),
                    Un::Ln => Operation::ln(r, a),
                    Un::Asin => Operation::asin(r, a),
                    Un::Acos => Operation::acos(r, a),
                    Un::Atan => Operation::atan(r, a),
                    _ => unreachable!("{:?}", u),
                }
            }
            Low::Bin(b, x, y) => {
                let (x, y) = (id[x], id[y]);
                match b {
                    Bin::Add => Operation::add(r, x, y),
                    Bin::Sub => Operation::sub(r, x, y),
                    Bin::Mul => Operation::mul(r, x, y),
                    Bin::Div => Operation::div(r, x, y),
                    Bin::Powf => Operation::powf(r, x, y),
                    _ => unreachable!("{:?}", b),
                }
            }
        });
    }
    VecTape {
        indeps: (0..l.n).map(|i| id[i]).collect(),
        deps: p.outs.iter().map(|r| id[l.reg[*r]]).collect(),
        ops,
        vals,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HandCase {
    raw: Raw,
    x: Vec<f64>,
    x2: Vec<f64>,
    dx: Vec<f64>,
    w: Vec<f64>,
    perm: Vec<u32>,
    extra: Vec<u8>,
}

pub fn c25(run: &mut Run) {
    run.rule = "Random programs spelled out as tapes with the public operation constructors, value \
        ids permuted, no-ops and unused constants interleaved, spare slots; replay, sweeps, counts, \
        abs-normal form, Jacobian and generalized Jacobian are compared with the reference. \
        Non-trivial: at least 2 instructions and a numbering that is not the recording order.";
    run.sub("hand-built", (40_000, 1_000_000), || {
        (
            raw(0usize..5, 1..14, 0..5usize),
            vals(4),
            vals(4),
            vals(4),
            vals(4),
            pvec(any::<u32>(), 0..12),
            pvec(0u8..3, 0..10),
        )
            .prop_map(|(raw, x, x2, dx, w, perm, extra)| HandCase { raw, x, x2, dx, w, perm, extra })
    }, |c, o| {
        let n = c.raw.n;
        let (x, x2, dx) = (fit(&c.x, n), fit(&c.x2, n), fit(&c.dx, n));
        let p = compile(&c.raw, Profile::Prims, &[x.clone(), x2.clone()], &[], false);
        let m = p.m();
        let w = fit(&c.w, m);
        let s = p.num_abs();
        let mut t = build_tape(&p, &c.perm, &c.extra);
        let ids: Vec<usize> = t.indeps.iter().copied().chain(t.ops.iter().filter(|o| o.opcode != OpCode::Nop).map(|o| o.vid)).collect();
        let permuted = ids.windows(2).any(|w| w[0] > w[1]);
        o.nontrivial = p.ins.len() >= 2 && permuted;
        o.class_if(permuted, "ids not in recording order");
        o.class_if(t.ops.iter().any(|o| o.opcode == OpCode::Nop), "no-ops");
        o.class_if(s > 0, "abs/max/min");
        o.sample(|| format!("{:?} at {:?}", t, x));
        ensure!(t.num_indeps() == n && t.num_deps() == m && t.num_abs() == s, "counts");
        ensure!(t.max_id() == ids.iter().copied().chain(t.deps.iter().copied()).max().unwrap_or(0), "max_id {}", t.max_id());
        for x in [&x, &x2, &x] {
            total("zero_order", || t.zero_order(&dv(x)))?;
            let want = ref_delta(&p, x, &dx, U64).expect("valid");
            let (y, dy) = (t.y(), total("forward sweep", || t.first_order_forward(&dv(&dx)))?);
            ensure!(t.x() == dv(x), "x");
            for (j, r) in p.outs.iter().enumerate() {
                let q = &want[*r];
                ensure!(close(y[j], q.v, q.ev), "output {} is {:?} want {:?}; {}", j, y[j], q.v, p.show());
                ensure!(close(dy[j], q.g[0], q.eg[0]), "sweep {} is {:?} want {:?}; {}", j, dy[j], q.g[0], p.show());
            }
            let (g, zs) = ref_anf(&p, x, U64).expect("valid");
            if s == 0 {
                let xbar = total("reverse sweep", || t.first_order_reverse(&dv(&w)))?;
                for i in 0..n {
                    let (mut want, mut err) = (0.0, 0.0);
                    for (j, r) in p.outs.iter().enumerate() {
                        want += w[j] * g[*r].g[i];
                        err += w[j].abs() * (g[*r].eg[i] + 1e-14 * g[*r].g[i].abs());
                    }
                    ensure!(close(xbar[i], want, err), "reverse {} is {:?} want {:?}; {}", i, xbar[i], want, p.show());
                }
                let jac = total("jacobian_reverse", || jacobian_reverse(&t))?;
                for (j, r) in p.outs.iter().enumerate() {
                    for i in 0..n {
                        ensure!(close(jac[(j, i)], g[*r].g[i], g[*r].eg[i]), "jacobian ({}, {})", j, i);
                    }
                }
            }
            // switching tape
            let at = AbsNormalTape::new(Box::new(t.clone()));
            ensure!(at.n() == n && at.m() == m && at.s() == s, "switching tape dimensions");
            ensure!(at.x() == dv(x) && at.y() == y, "switching tape x, y");
            let z = at.z();
            for (i, q) in zs.iter().enumerate() {
                ensure!(close(z[i], q.v, q.ev), "z[{}] = {:?} want {:?}", i, z[i], q.v);
            }
            let blocks: [(&str, DMatrix<f64>, DMatrix<f64>, usize, usize); 2] = [
                ("[Z L]", hcat(AbsNormalZ::new(&at).mul_right(&DMatrix::<f64>::identity(n, n)), AbsNormalL::new(&at).mul_right(&DMatrix::<f64>::identity(s, s))),
                 hcat(AbsNormalZ::new(&at).mul_left(&DMatrix::<f64>::identity(s, s)), AbsNormalL::new(&at).mul_left(&DMatrix::<f64>::identity(s, s))), s, 0),
                ("[J Y]", hcat(AbsNormalJ::new(&at).mul_right(&DMatrix::<f64>::identity(n, n)), AbsNormalY::new(&at).mul_right(&DMatrix::<f64>::identity(s, s))),
                 hcat(AbsNormalJ::new(&at).mul_left(&DMatrix::<f64>::identity(m, m)), AbsNormalY::new(&at).mul_left(&DMatrix::<f64>::identity(m, m))), m, 1),
            ];
            for (name, r, l, rows, which) in &blocks {
                for i in 0..*rows {
                    let q = if *which == 0 { &zs[i] } else { &g[p.outs[i]] };
                    for k in 0..n + s {
                        ensure!(close(r[(i, k)], q.g[k], q.eg[k]), "{} ({}, {}) is {:?} want {:?}; {}", name, i, k, r[(i, k)], q.g[k], p.show());
                        ensure!(close(l[(i, k)], q.g[k], q.eg[k]), "{} ({}, {}) from the left is {:?} want {:?}; {}", name, i, k, l[(i, k)], q.g[k], p.show());
                    }
                }
            }
            if s > 0 || m > 0 {
                let piece = ref_piece(&p, x, &dx, &[], U64).expect("valid");
                if !piece.near {
                    let gj = total("generalized_jacobian_tape", || {
                        generalized_jacobian_tape(Box::new(t.clone()), &dv(&dx), &[], None)
                    })?;
                    ensure!(gj.multiplicity == 0, "multiplicity {}", gj.multiplicity);
                    for (j, r) in p.outs.iter().enumerate() {
                        let q = &piece.regs[*r];
                        for i in 0..n {
                            ensure!(close(gj.homogenous[(j, i)], q.g[i], q.eg[i]), "generalized Jacobian ({}, {}): {:?} want {:?}", j, i, gj.homogenous[(j, i)], q.g[i]);
                        }
                        ensure!(close(gj.inhomogenous[j], q.g[n], q.eg[n]), "offset {}: {:?} want {:?}", j, gj.inhomogenous[j], q.g[n]);
                    }
                }
            }
        }
        Ok(())
    });
    run.sub("long", (80, 2_000), || crate::long::long_case(18), |c, o| crate::long::check_long(c, o, crate::long::Long::HandBuilt));
}

pub fn hcat(a: DMatrix<f64>, b: DMatrix<f64>) -> DMatrix<f64> {
    let mut r = DMatrix::zeros(a.nrows(), a.ncols() + b.ncols());
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            r[(i, j)] = a[(i, j)];
        }
        for j in 0..b.ncols() {
            r[(i, a.ncols() + j)] = b[(i, j)];
        }
    }
    r
}
