//! Straight-line programs over the supported operations, a generator for them, and an
//! independent reference semantics (values, derivatives, piecewise linearization) that carries
//! a running error bound, so that comparisons have a justified tolerance.
use advantage as adv;
use adv::{AFloat, DVector, Float};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Un {
    Neg,
    Sin,
    Cos,
    Tan,
    Exp,
    Ln,
    Asin,
    Acos,
    Atan,
    Sqrt,
    Cbrt,
    Exp2,
    Log2,
    Log10,
    Recip,
    Abs,
    ToDeg,
    ToRad,
    Powi(i32),
    SinCos(bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Powf,
    Max,
    Min,
    AbsSub,
    Hypot,
    Log,
}

/// Operand: register, plain float, active constant
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Opd {
    R(usize),
    F(f64),
    C(f64),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ins {
    Un(Un, usize),
    /// the flag selects compound assignment (only for arithmetic with a register on the left)
    Bin(Bin, Opd, Opd, bool),
    MulAdd(usize, usize, usize),
    Const(f64),
}

/// Registers 0..n are the inputs, every instruction defines the next register
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Prog {
    pub n: usize,
    pub ins: Vec<Ins>,
    pub outs: Vec<usize>,
}

impl Prog {
    pub fn nregs(&self) -> usize {
        self.n + self.ins.len()
    }
    pub fn m(&self) -> usize {
        self.outs.len()
    }
    pub fn num_abs(&self) -> usize {
        self.ins.iter().filter(|i| i.is_abs()).count()
    }
    pub fn show(&self) -> String {
        let o = |x: &Opd| match x {
            Opd::R(i) => format!("r{}", i),
            Opd::F(c) => format!("{:?}", c),
            Opd::C(c) => format!("const({:?})", c),
        };
        let mut s = format!("inputs r0..r{}; ", self.n);
        for (k, i) in self.ins.iter().enumerate() {
            s += &format!("r{}=", k + self.n);
            s += &match i {
                Ins::Un(u, a) => format!("{:?}(r{}); ", u, a),
                Ins::Bin(b, x, y, assign) => {
                    format!("{:?}{}({}, {}); ", b, if *assign { "Assign" } else { "" }, o(x), o(y))
                }
                Ins::MulAdd(a, b, c) => format!("r{}*r{}+r{}; ", a, b, c),
                Ins::Const(c) => format!("const({:?}); ", c),
            };
        }
        s + &format!("outputs {:?}", self.outs)
    }

    /// The same function in other units: inputs and outputs times 2^k. Only for programs whose
    /// instructions are additions, negation, absolute values, maxima and minima, and products
    /// and quotients with plain numbers.
    pub fn scaled(&self, k: i32) -> Prog {
        let f = 2f64.powi(k);
        let so = |o: Opd| match o {
            Opd::F(c) => Opd::F(c * f),
            Opd::C(c) => Opd::C(c * f),
            r => r,
        };
        let mut p = self.clone();
        for i in p.ins.iter_mut() {
            *i = match *i {
                Ins::Const(c) => Ins::Const(c * f),
                Ins::Bin(Bin::Mul, Opd::R(_), Opd::R(_), _) => unreachable!(),
                Ins::Bin(b @ (Bin::Mul | Bin::Div), x, y, a) => Ins::Bin(b, x, y, a),
                Ins::Bin(b, x, y, a) => Ins::Bin(b, so(x), so(y), a),
                i => i,
            };
        }
        p
    }

    /// Two programs side by side, their instructions interleaved as the bits of `mix` say
    pub fn beside(&self, g: &Prog, mix: u32) -> Prog {
        let n = self.n + g.n;
        let mut ins = vec![];
        let mut maps: [Vec<usize>; 2] = [(0..self.n).collect(), (self.n..n).collect()];
        let mut at = [0, 0];
        let src = [self, g];
        while at[0] < self.ins.len() || at[1] < g.ins.len() {
            let mut w = (mix >> (ins.len() % 32) & 1) as usize;
            if at[w] >= src[w].ins.len() {
                w = 1 - w;
            }
            let map = &maps[w];
            let mo = |o: Opd| if let Opd::R(r) = o { Opd::R(map[r]) } else { o };
            ins.push(match src[w].ins[at[w]] {
                Ins::Un(u, a) => Ins::Un(u, map[a]),
                Ins::Bin(b, x, y, f) => Ins::Bin(b, mo(x), mo(y), f),
                Ins::MulAdd(a, b, c) => Ins::MulAdd(map[a], map[b], map[c]),
                Ins::Const(c) => Ins::Const(c),
            });
            at[w] += 1;
            maps[w].push(n + ins.len() - 1);
        }
        let outs = self.outs.iter().map(|r| maps[0][*r]).chain(g.outs.iter().map(|r| maps[1][*r])).collect();
        Prog { n, ins, outs }
    }

    /// g after f as one program (inputs of f, outputs of g)
    pub fn then(&self, g: &Prog) -> Prog {
        assert_eq!(self.m(), g.n);
        let base = self.nregs();
        let map = |r: usize| if r < g.n { self.outs[r] } else { base + (r - g.n) };
        let mo = |o: Opd| if let Opd::R(r) = o { Opd::R(map(r)) } else { o };
        let mut ins = self.ins.clone();
        for i in &g.ins {
            ins.push(match *i {
                Ins::Un(u, a) => Ins::Un(u, map(a)),
                Ins::Bin(b, x, y, f) => Ins::Bin(b, mo(x), mo(y), f),
                Ins::MulAdd(a, b, c) => Ins::MulAdd(map(a), map(b), map(c)),
                Ins::Const(c) => Ins::Const(c),
            });
        }
        Prog { n: self.n, ins, outs: g.outs.iter().map(|r| map(*r)).collect() }
    }
}

impl Ins {
    pub fn is_abs(&self) -> bool {
        matches!(
            self,
            Ins::Un(Un::Abs, _) | Ins::Bin(Bin::Max | Bin::Min | Bin::AbsSub, _, _, _)
        )
    }
    pub fn regs(&self) -> Vec<usize> {
        let o = |x: Opd| if let Opd::R(r) = x { vec![r] } else { vec![] };
        match *self {
            Ins::Un(_, a) => vec![a],
            Ins::Bin(_, x, y, _) => [o(x), o(y)].concat(),
            Ins::MulAdd(a, b, c) => vec![a, b, c],
            Ins::Const(_) => vec![],
        }
    }
    pub fn mixed(&self) -> bool {
        matches!(
            self,
            Ins::Bin(_, Opd::F(_) | Opd::C(_), _, _) | Ins::Bin(_, _, Opd::F(_) | Opd::C(_), _)
        )
    }
}

// ---------------------------------------------------------------------------------------------
// Running a program on the library's active numbers
// ---------------------------------------------------------------------------------------------

pub fn lit<S: Float>(c: f64) -> AFloat<S> {
    AFloat::new(S::from(c).unwrap(), S::zero())
}

pub fn step_af<S: Float>(i: &Ins, r: &[AFloat<S>]) -> AFloat<S> {
    match *i {
        Ins::Const(c) => lit(c),
        Ins::MulAdd(a, b, c) => r[a].mul_add(r[b], r[c]),
        Ins::Un(u, a) => {
            let x = r[a];
            match u {
                Un::Neg => -x,
                Un::Sin => x.sin(),
                Un::Cos => x.cos(),
                Un::Tan => x.tan(),
                Un::Exp => x.exp(),
                Un::Ln => x.ln(),
                Un::Asin => x.asin(),
                Un::Acos => x.acos(),
                Un::Atan => x.atan(),
                Un::Sqrt => x.sqrt(),
                Un::Cbrt => x.cbrt(),
                Un::Exp2 => x.exp2(),
                Un::Log2 => x.log2(),
                Un::Log10 => x.log10(),
                Un::Recip => x.recip(),
                Un::Abs => x.abs(),
                Un::ToDeg => x.to_degrees(),
                Un::ToRad => x.to_radians(),
                Un::Powi(n) => x.powi(n),
                Un::SinCos(false) => x.sin_cos().0,
                Un::SinCos(true) => x.sin_cos().1,
            }
        }
        Ins::Bin(b, x, y, assign) => {
            let full = |o: Opd| match o {
                Opd::R(i) => r[i],
                Opd::F(c) | Opd::C(c) => lit(c),
            };
            macro_rules! arith {
                ($op:tt, $aop:tt) => {
                    match (x, y) {
                        (Opd::F(c), Opd::R(_)) => c $op full(y),
                        (Opd::R(_), Opd::F(c)) => {
                            if assign {
                                let mut t = full(x);
                                t $aop c;
                                t
                            } else {
                                full(x) $op c
                            }
                        }
                        _ => {
                            if assign {
                                let mut t = full(x);
                                t $aop full(y);
                                t
                            } else {
                                full(x) $op full(y)
                            }
                        }
                    }
                };
            }
            match b {
                Bin::Add => arith!(+, +=),
                Bin::Sub => arith!(-, -=),
                Bin::Mul => arith!(*, *=),
                Bin::Div => arith!(/, /=),
                Bin::Powf => full(x).powf(full(y)),
                Bin::Max => full(x).max(full(y)),
                Bin::Min => full(x).min(full(y)),
                #[allow(deprecated)]
                Bin::AbsSub => full(x).abs_sub(full(y)),
                Bin::Hypot => full(x).hypot(full(y)),
                Bin::Log => full(x).log(full(y)),
            }
        }
    }
}

/// All registers
pub fn run_af<S: Float>(p: &Prog, x: &[AFloat<S>]) -> Vec<AFloat<S>> {
    let mut r = x.to_vec();
    for i in &p.ins {
        let v = step_af(i, &r);
        r.push(v);
    }
    r
}

/// Instructions evaluated in single precision where the mask says so, in double precision otherwise
pub fn run_mixed(p: &Prog, x: &[AFloat<f64>], mask: u32) -> Vec<AFloat<f64>> {
    let mut r = x.to_vec();
    for (k, i) in p.ins.iter().enumerate() {
        let v = if mask >> (k % 32) & 1 == 1 {
            let s: Vec<AFloat<f32>> = r.iter().map(|v| AFloat::cast(*v)).collect();
            AFloat::cast(step_af(i, &s))
        } else {
            step_af(i, &r)
        };
        r.push(v);
    }
    r
}

/// A program as a library function
#[derive(Clone)]
pub struct PF(pub Prog);

impl adv::Function for PF {
    fn n(&self) -> usize {
        self.0.n
    }
    fn m(&self) -> usize {
        self.0.outs.len()
    }
    fn eval(&self, x: DVector<adv::ADouble>) -> DVector<adv::ADouble> {
        assert_eq!(x.nrows(), self.0.n, "function called with the wrong input length");
        let r = run_af(&self.0, x.as_slice());
        DVector::from_vec(self.0.outs.iter().map(|o| r[*o]).collect())
    }
}

// ---------------------------------------------------------------------------------------------
// Reference semantics
// ---------------------------------------------------------------------------------------------

/// value, derivative components, and error bounds of both
#[derive(Clone, Debug, Default)]
pub struct Nd {
    pub v: f64,
    pub ev: f64,
    pub g: Vec<f64>,
    pub eg: Vec<f64>,
}

/// first and second partials and rounding scale of an operation
struct Pt {
    f: f64,
    scale: f64,
    pa: f64,
    pb: f64,
    /// bounds for second partials
    h: f64,
}

pub const U64: f64 = 32.0 * f64::EPSILON;
pub const U32: f64 = 32.0 * f32::EPSILON as f64;

/// Primitive language of the reference: max/min/abs_sub are lowered to a single Abs
#[derive(Clone, Copy, Debug)]
pub enum Low {
    Un(Un, usize),
    /// the flags say whether an operand is a literal (no derivative, no error)
    Bin(Bin, usize, usize),
    MulAdd(usize, usize, usize),
    Lit(f64),
}

/// A lowered program: primitive list, and for every register of the program the node it lives in
#[derive(Clone, Debug)]
pub struct Lowered {
    pub n: usize,
    pub ops: Vec<Low>,
    pub reg: Vec<usize>,
    /// propagate sums of absolute path products instead of derivatives: `g` then bounds every
    /// partial sum a forward or reverse sweep can meet, and `eg` the rounding error of either
    pub mag: bool,
}

/// The switching variable of max, min and abs_sub of x and y is a multiple of x - y; which one is
/// not specified (|x - y| or |y - x| serve equally), so the reference takes the one in use:
/// 1 unless the tape of one evaluation shows -1, 1/2 or -1/2.
fn switch_scale(b: Bin) -> f64 {
    static SCALES: std::sync::OnceLock<[f64; 3]> = std::sync::OnceLock::new();
    fn probe(f: fn(adv::ADouble, adv::ADouble) -> adv::ADouble) -> f64 {
        use adv::Tape;
        let scale = std::panic::catch_unwind(|| {
            let mut ctx = adv::AContext::new();
            let (x, y) = (ctx.new_indep(5.0), ctx.new_indep(1.0));
            ctx.set_dep(&f(x, y));
            let tape = ctx.tape();
            let args: Vec<f64> = tape
                .ops_iter()
                .filter(|o| o.opcode == adv::OpCode::Abs)
                .filter_map(|o| o.arg1.and_then(|i| tape.values().get(i).copied()))
                .collect();
            match args[..] {
                [z] => z / 4.0,
                _ => 1.0,
            }
        });
        match scale {
            Ok(s) if [1.0, -1.0, 0.5, -0.5].contains(&s) => s,
            _ => 1.0,
        }
    }
    let s = SCALES.get_or_init(|| {
        use num::Float;
        [probe(|x, y| x.max(y)), probe(|x, y| x.min(y)), probe(|x, y| x.abs_sub(y))]
    });
    match b {
        Bin::Max => s[0],
        Bin::Min => s[1],
        _ => s[2],
    }
}

pub fn lower(p: &Prog) -> Lowered {
    let mut l = Lowered { n: p.n, ops: vec![], reg: (0..p.n).collect(), mag: false };
    for i in &p.ins {
        lower_ins(&mut l, i);
    }
    l
}

fn lower_ins(l: &mut Lowered, i: &Ins) {
    fn push(l: &mut Lowered, o: Low) -> usize {
        l.ops.push(o);
        l.n + l.ops.len() - 1
    }
    fn opd(l: &mut Lowered, o: Opd) -> usize {
        match o {
            Opd::R(r) => l.reg[r],
            Opd::F(c) | Opd::C(c) => push(l, Low::Lit(c)),
        }
    }
    /// The difference and its absolute value
    fn switch(l: &mut Lowered, b: Bin, x: usize, y: usize) -> (usize, usize) {
        let scale = switch_scale(b);
        let d = push(l, Low::Bin(Bin::Sub, x, y));
        let z = match scale {
            s if s == 1.0 => d,
            s if s == -1.0 => push(l, Low::Bin(Bin::Sub, y, x)),
            s => {
                let lit = push(l, Low::Lit(s));
                push(l, Low::Bin(Bin::Mul, lit, d))
            }
        };
        let a = push(l, Low::Un(Un::Abs, z));
        if scale.abs() == 1.0 {
            return (d, a);
        }
        let lit = push(l, Low::Lit(1.0 / scale.abs()));
        (d, push(l, Low::Bin(Bin::Mul, lit, a)))
    }
    let node = match *i {
        Ins::Const(c) => push(l, Low::Lit(c)),
        Ins::MulAdd(a, b, c) => {
            let o = Low::MulAdd(l.reg[a], l.reg[b], l.reg[c]);
            push(l, o)
        }
        Ins::Un(u, a) => {
            let o = Low::Un(u, l.reg[a]);
            push(l, o)
        }
        Ins::Bin(b, x, y, _) => {
            let x = opd(l, x);
            let y = opd(l, y);
            match b {
                Bin::Max | Bin::Min => {
                    let s = push(l, Low::Bin(Bin::Add, x, y));
                    let (_, a) = switch(l, b, x, y);
                    let t =
                        push(l, Low::Bin(if b == Bin::Max { Bin::Add } else { Bin::Sub }, s, a));
                    let h = push(l, Low::Lit(0.5));
                    push(l, Low::Bin(Bin::Mul, h, t))
                }
                Bin::AbsSub => {
                    let (d, a) = switch(l, b, x, y);
                    let t = push(l, Low::Bin(Bin::Add, d, a));
                    let h = push(l, Low::Lit(0.5));
                    push(l, Low::Bin(Bin::Mul, h, t))
                }
                _ => push(l, Low::Bin(b, x, y)),
            }
        }
    };
    l.reg.push(node);
}

fn partials(o: &Low, a: f64, b: f64, lit_b: bool) -> Option<Pt> {
    let z = |f: f64, pa: f64, h: f64| Some(Pt { f, scale: f.abs(), pa, pb: 0.0, h });
    match *o {
        Low::Lit(_) | Low::MulAdd(..) => unreachable!(),
        Low::Un(u, _) => match u {
            Un::Neg => z(-a, -1.0, 0.0),
            Un::Sin | Un::SinCos(false) => z(a.sin(), a.cos(), 1.0),
            Un::Cos | Un::SinCos(true) => z(a.cos(), -a.sin(), 1.0),
            Un::Tan => {
                let c = a.cos();
                if c.abs() < 0.1 {
                    return None;
                }
                let t = a.tan();
                z(t, 1.0 + t * t, 2.0 * t.abs() * (1.0 + t * t) + 1.0)
            }
            Un::Exp => {
                if a > 9.0 {
                    return None;
                }
                z(a.exp(), a.exp(), a.exp())
            }
            Un::Exp2 => {
                if a > 12.0 {
                    return None;
                }
                let l = std::f64::consts::LN_2;
                z(a.exp2(), a.exp2() * l, a.exp2())
            }
            Un::Ln => {
                if a < 0.05 {
                    return None;
                }
                z(a.ln(), 1.0 / a, 1.0 / (a * a))
            }
            Un::Log2 | Un::Log10 => {
                if a < 0.05 {
                    return None;
                }
                let l = if u == Un::Log2 { 2.0f64.ln() } else { 10.0f64.ln() };
                z(if u == Un::Log2 { a.log2() } else { a.log10() }, 1.0 / (a * l), 2.0 / (a * a))
            }
            Un::Asin | Un::Acos => {
                if a.abs() > 0.95 {
                    return None;
                }
                let q = 1.0 - a * a;
                let d = 1.0 / q.sqrt();
                let h = 1.0 / (q * q.sqrt());
                if u == Un::Asin {
                    z(a.asin(), d, h)
                } else {
                    z(a.acos(), -d, h)
                }
            }
            Un::Atan => z(a.atan(), 1.0 / (1.0 + a * a), 1.0),
            Un::Sqrt => {
                if a < 0.02 {
                    return None;
                }
                let s = a.sqrt();
                z(s, 0.5 / s, 0.25 / (a * s))
            }
            Un::Cbrt => {
                if a.abs() < 0.02 {
                    return None;
                }
                let s = a.cbrt();
                z(s, 1.0 / (3.0 * s * s), 0.3 / (a * s * s).abs())
            }
            Un::Recip => {
                if a.abs() < 0.05 {
                    return None;
                }
                z(1.0 / a, -1.0 / (a * a), 2.0 / (a * a * a).abs())
            }
            Un::Abs => z(a.abs(), f64::NAN, 0.0),
            Un::ToDeg => z(a.to_degrees(), 180.0 / std::f64::consts::PI, 0.0),
            Un::ToRad => z(a.to_radians(), std::f64::consts::PI / 180.0, 0.0),
            Un::Powi(n) => {
                if n < 0 && a.abs() < 0.1 {
                    return None;
                }
                let nf = n as f64;
                let pa = if n == 0 { 0.0 } else { nf * a.powi(n - 1) };
                let h = if n == 0 || n == 1 { 0.0 } else { (nf * (nf - 1.0) * a.powi(n - 2)).abs() };
                z(a.powi(n), pa, h)
            }
        },
        Low::Bin(op, _, _) => {
            let pt = match op {
                Bin::Add => Pt { f: a + b, scale: (a + b).abs(), pa: 1.0, pb: 1.0, h: 0.0 },
                Bin::Sub => Pt { f: a - b, scale: (a - b).abs(), pa: 1.0, pb: -1.0, h: 0.0 },
                Bin::Mul => Pt { f: a * b, scale: (a * b).abs(), pa: b, pb: a, h: 1.0 },
                Bin::Div => {
                    if b.abs() < 0.05 {
                        return None;
                    }
                    let h = 1.0 / (b * b) + 2.0 * (a / (b * b * b)).abs();
                    Pt { f: a / b, scale: (a / b).abs(), pa: 1.0 / b, pb: -a / (b * b), h }
                }
                Bin::Powf => {
                    // the exponent is either a literal or the base is safely positive;
                    // a literal zero base needs a positive exponent
                    let f = a.powf(b);
                    if lit_b {
                        let int = b == b.trunc();
                        if a < 0.0 && (!int || a > -0.1) {
                            return None;
                        }
                        if a == 0.0 && !(b == 0.0 || b == 1.0 || b >= 2.0) {
                            return None;
                        }
                        if a > 0.0 && a < 0.05 && b < 2.0 && b != 0.0 && b != 1.0 {
                            return None;
                        }
                        let pa = if b == 0.0 { 0.0 } else { b * a.powf(b - 1.0) };
                        let h = if b == 0.0 || b == 1.0 {
                            0.0
                        } else {
                            (b * (b - 1.0) * a.powf(b - 2.0)).abs()
                        };
                        Pt { f, scale: f.abs(), pa, pb: 0.0, h }
                    } else {
                        if a < 0.05 {
                            return None;
                        }
                        let l = a.ln();
                        let h = f.abs()
                            * ((b * (b - 1.0) / (a * a)).abs() + l * l + 2.0 * ((1.0 + b * l) / a).abs());
                        Pt { f, scale: f.abs(), pa: b * a.powf(b - 1.0), pb: l * f, h }
                    }
                }
                Bin::Hypot => {
                    let f = a.hypot(b);
                    if f < 0.05 {
                        return None;
                    }
                    Pt { f, scale: f, pa: a / f, pb: b / f, h: 2.0 / f }
                }
                Bin::Log => {
                    if a < 0.05 || b < 0.05 || b.ln().abs() < 0.05 {
                        return None;
                    }
                    let (la, lb) = (a.ln(), b.ln());
                    let f = la / lb;
                    let h = 1.0 / (a * a * lb.abs())
                        + 2.0 / (a * b * lb * lb)
                        + la.abs() / (b * b * lb * lb) * (1.0 + 2.0 / lb.abs());
                    Pt { f, scale: f.abs(), pa: 1.0 / (a * lb), pb: -la / (b * lb * lb), h }
                }
                Bin::Max | Bin::Min | Bin::AbsSub => unreachable!(),
            };
            Some(pt)
        }
    }
}

/// Partials with a bound for the second ones within `ea` and `eb` of the arguments
fn partials_around(o: &Low, a: f64, ea: f64, b: f64, eb: f64, lit_b: bool) -> Option<Pt> {
    let mut p = partials(o, a, b, lit_b)?;
    let around = |v: f64, e: f64| if e > 0.0 { vec![v - e, v, v + e] } else { vec![v] };
    for x in around(a, ea) {
        for y in around(b, eb) {
            if let Some(q) = partials(o, x, y, lit_b) {
                p.h = p.h.max(q.h);
            }
        }
    }
    Some(p)
}

/// Literal zero base with an active exponent: 0^y for y > 0
fn zero_base(ops: &[Low], n: usize, o: &Low) -> bool {
    if let Low::Bin(Bin::Powf, a, _) = o {
        return *a >= n && matches!(ops[*a - n], Low::Lit(c) if c == 0.0);
    }
    false
}

fn is_lit(ops: &[Low], n: usize, node: usize) -> bool {
    node >= n && matches!(ops[node - n], Low::Lit(_))
}

/// One primitive: None when the arguments are outside the safe domain
pub fn step_ref(
    l: &Lowered,
    o: &Low,
    nodes: &[Nd],
    u: f64,
    k: usize,
    abs_rule: &mut dyn FnMut(&Nd) -> Nd,
) -> Option<Nd> {
    let r = match *o {
        Low::Lit(c) => Nd { v: c, ev: 0.0, g: vec![0.0; k], eg: vec![0.0; k] },
        Low::Un(Un::Abs, a) => abs_rule(&nodes[a]),
        Low::MulAdd(a, b, c) => {
            let (a, b, c) = (&nodes[a], &nodes[b], &nodes[c]);
            let v = a.v * b.v + c.v;
            let ev = b.v.abs() * a.ev
                + a.v.abs() * b.ev
                + a.ev * b.ev
                + c.ev
                + u * ((a.v * b.v).abs() + v.abs());
            let mut g = vec![0.0; k];
            let mut eg = vec![0.0; k];
            let (bv, av) = if l.mag { (b.v.abs(), a.v.abs()) } else { (b.v, a.v) };
            for j in 0..k {
                let (ta, tb) = (bv * a.g[j], av * b.g[j]);
                g[j] = ta + tb + c.g[j];
                eg[j] = b.v.abs() * a.eg[j]
                    + a.v.abs() * b.eg[j]
                    + c.eg[j]
                    + a.ev * (b.g[j].abs() + b.eg[j])
                    + b.ev * (a.g[j].abs() + a.eg[j])
                    + u * (ta.abs() + tb.abs() + c.g[j].abs());
            }
            Nd { v, ev, g, eg }
        }
        Low::Un(_, a) => {
            let a = &nodes[a];
            let mut p = partials_around(o, a.v, a.ev, 0.0, 0.0, false)?;
            if l.mag {
                p.pa = p.pa.abs();
            }
            let ev = p.pa.abs() * a.ev + p.h * a.ev * a.ev + u * p.scale;
            let mut g = vec![0.0; k];
            let mut eg = vec![0.0; k];
            let dp = p.h * a.ev + u * p.pa.abs();
            for j in 0..k {
                g[j] = p.pa * a.g[j];
                eg[j] = p.pa.abs() * a.eg[j] + dp * (a.g[j].abs() + a.eg[j]) + u * g[j].abs();
            }
            Nd { v: p.f, ev, g, eg }
        }
        Low::Bin(_, ia, ib) => {
            let (a, b) = (&nodes[ia], &nodes[ib]);
            if zero_base(&l.ops, l.n, o) && !is_lit(&l.ops, l.n, ib) {
                if b.v < 0.05 {
                    return None;
                }
                return Some(Nd { v: 0.0, ev: 0.0, g: vec![0.0; k], eg: vec![0.0; k] });
            }
            let mut p = partials_around(o, a.v, a.ev, b.v, b.ev, is_lit(&l.ops, l.n, ib))?;
            if l.mag {
                p.pa = p.pa.abs();
                p.pb = p.pb.abs();
            }
            let ev = p.pa.abs() * a.ev
                + p.pb.abs() * b.ev
                + p.h * (a.ev + b.ev) * (a.ev + b.ev)
                + u * p.scale;
            let mut g = vec![0.0; k];
            let mut eg = vec![0.0; k];
            let dh = p.h * (a.ev + b.ev);
            for j in 0..k {
                let (ta, tb) = (p.pa * a.g[j], p.pb * b.g[j]);
                g[j] = ta + tb;
                eg[j] = p.pa.abs() * a.eg[j]
                    + p.pb.abs() * b.eg[j]
                    + dh * (a.g[j].abs() + a.eg[j] + b.g[j].abs() + b.eg[j])
                    + u * (ta.abs() + tb.abs());
            }
            Nd { v: p.f, ev, g, eg }
        }
    };
    if r.v.is_finite() && r.ev.is_finite() {
        Some(r)
    } else {
        None
    }
}

/// Forward propagation with k derivative components
pub fn propagate_k(
    l: &Lowered,
    x: &[f64],
    seeds: &[Vec<f64>],
    k: usize,
    u: f64,
    abs_rule: &mut dyn FnMut(&Nd) -> Nd,
) -> Option<Vec<Nd>> {
    let mut nodes: Vec<Nd> = (0..l.n)
        .map(|i| Nd { v: x[i], ev: 0.0, g: seeds[i].clone(), eg: vec![0.0; k] })
        .collect();
    for o in &l.ops {
        let nd = step_ref(l, o, &nodes, u, k, abs_rule)?;
        nodes.push(nd);
    }
    Some(nodes)
}

pub fn regs(l: &Lowered, nodes: &[Nd]) -> Vec<Nd> {
    l.reg.iter().map(|r| nodes[*r].clone()).collect()
}

fn no_grad(a: &Nd) -> Nd {
    Nd { v: a.v.abs(), ev: a.ev, g: vec![], eg: vec![] }
}

/// Values of all registers
pub fn ref_values(p: &Prog, x: &[f64], u: f64) -> Option<Vec<Nd>> {
    let l = lower(p);
    let seeds = vec![vec![]; p.n];
    let n = propagate_k(&l, x, &seeds, 0, u, &mut no_grad)?;
    Some(regs(&l, &n))
}

/// Signed derivatives with the error bound of the magnitude run
fn merge(signed: Vec<Nd>, mag: Vec<Nd>) -> Vec<Nd> {
    signed
        .into_iter()
        .zip(mag)
        .map(|(mut a, m)| {
            for j in 0..a.g.len() {
                a.eg[j] = a.eg[j].max(m.eg[j]);
            }
            a
        })
        .collect()
}

/// Gradients of all registers of a smooth program; the bounds hold for forward and reverse mode
pub fn ref_grad(p: &Prog, x: &[f64], u: f64) -> Option<Vec<Nd>> {
    Some(ref_anf_of(p, x, u, true)?.0)
}

/// Directional derivative (smooth programs) of all registers
pub fn ref_dir(p: &Prog, x: &[f64], dx: &[f64], u: f64) -> Option<Vec<Nd>> {
    let l = lower(p);
    let seeds: Vec<Vec<f64>> = dx.iter().map(|d| vec![*d]).collect();
    let n = propagate_k(&l, x, &seeds, 1, u, &mut |_| panic!("abs in a smooth program"))?;
    Some(regs(&l, &n))
}

fn abs_delta(a: &Nd, j: usize, u: f64) -> (f64, f64) {
    let s = a.v + a.g[j];
    let (ev, es) = (4.0 * a.ev, 4.0 * (a.ev + a.eg[j] + u * (a.v.abs() + a.g[j].abs())));
    if a.v.signum() == s.signum() && a.v.abs() > ev && s.abs() > es {
        // on one side of the kink
        return (a.v.signum() * a.g[j], a.eg[j]);
    }
    (s.abs() - a.v.abs(), 2.0 * a.ev + a.eg[j] + u * (s.abs() + a.v.abs()))
}

/// Increment of the piecewise linearization of all registers
pub fn ref_delta(p: &Prog, x: &[f64], dx: &[f64], u: f64) -> Option<Vec<Nd>> {
    let l = lower(p);
    let seeds: Vec<Vec<f64>> = dx.iter().map(|d| vec![*d]).collect();
    let n = propagate_k(&l, x, &seeds, 1, u, &mut |a| {
        let (d, e) = abs_delta(a, 0, u);
        Nd { v: a.v.abs(), ev: a.ev, g: vec![d], eg: vec![e] }
    })?;
    Some(regs(&l, &n))
}

/// A bound for |f(x + dx) - f(x) - increment of the piecewise linearization| of all registers:
/// with D the true increment of an operand, e the error of its linearized one, and h the second
/// derivative in between, an operation adds h/2 D^2 to |partial| e, and abs passes e on.
/// Infinite where an increment is too large to bound h by samples.
pub fn ref_order(p: &Prog, x: &[f64], dx: &[f64], u: f64) -> Option<Vec<f64>> {
    let l = lower(p);
    let to: Vec<f64> = x.iter().zip(dx).map(|(a, b)| a + b).collect();
    let none = vec![vec![]; p.n];
    let f0 = propagate_k(&l, x, &none, 0, u, &mut no_grad)?;
    let f1 = propagate_k(&l, &to, &none, 0, u, &mut no_grad)?;
    let d = |k: usize| (f1[k].v - f0[k].v).abs() + f0[k].ev + f1[k].ev;
    let mut e = vec![0.0f64; l.n];
    for o in &l.ops {
        let r = match *o {
            Low::Lit(_) => 0.0,
            Low::Un(Un::Abs, a) => e[a],
            Low::MulAdd(a, b, c) => f0[b].v.abs() * e[a] + f0[a].v.abs() * e[b] + d(a) * d(b) + e[c],
            Low::Un(_, a) => {
                let p = partials_around(o, f0[a].v, 0.0, 0.0, 0.0, false)?;
                let q = partials_around(o, f1[a].v, d(a), 0.0, 0.0, false)?;
                p.pa.abs() * e[a] + 0.5 * p.h.max(q.h) * d(a) * d(a)
            }
            Low::Bin(_, a, b) => {
                if zero_base(&l.ops, l.n, o) && !is_lit(&l.ops, l.n, b) {
                    0.0
                } else {
                    let lit = is_lit(&l.ops, l.n, b);
                    let p = partials_around(o, f0[a].v, 0.0, f0[b].v, 0.0, lit)?;
                    let q = partials_around(o, f1[a].v, d(a), f1[b].v, d(b), lit)?;
                    let s = d(a) + d(b);
                    p.pa.abs() * e[a] + p.pb.abs() * e[b] + 0.5 * p.h.max(q.h) * s * s
                }
            }
        };
        let big = match *o {
            Low::Lit(_) | Low::Un(Un::Abs | Un::Neg | Un::Sin | Un::Cos | Un::SinCos(_), _) => false,
            Low::Bin(Bin::Add | Bin::Sub | Bin::Mul, ..) | Low::MulAdd(..) => false,
            Low::Un(_, a) => d(a) > 0.02,
            Low::Bin(_, a, b) => d(a).max(d(b)) > 0.02,
        };
        e.push(if big { f64::INFINITY } else { r });
    }
    Some(l.reg.iter().map(|r| if e[*r].is_nan() { f64::INFINITY } else { e[*r] }).collect())
}

/// Abs-normal data: (registers with gradient over (x, |z|), switching arguments likewise)
pub fn ref_anf(p: &Prog, x: &[f64], u: f64) -> Option<(Vec<Nd>, Vec<Nd>)> {
    ref_anf_of(p, x, u, false)
}

fn ref_anf_of(p: &Prog, x: &[f64], u: f64, smooth: bool) -> Option<(Vec<Nd>, Vec<Nd>)> {
    let s = p.num_abs();
    assert!(s == 0 || !smooth, "abs in a smooth program");
    let n = p.n;
    let k = n + s;
    let mut l = lower(p);
    let seeds: Vec<Vec<f64>> = (0..n).map(|i| unit(k, i)).collect();
    let mut run = |mag: bool| -> Option<(Vec<Nd>, Vec<Nd>)> {
        l.mag = mag;
        let mut zs: Vec<Nd> = vec![];
        let nodes = propagate_k(&l, x, &seeds, k, u, &mut |a| {
            let i = zs.len();
            zs.push(a.clone());
            Nd { v: a.v.abs(), ev: a.ev, g: unit(k, n + i), eg: vec![0.0; k] }
        })?;
        Some((regs(&l, &nodes), zs))
    };
    let a = run(false)?;
    let b = run(true)?;
    Some((merge(a.0, b.0), merge(a.1, b.1)))
}

/// Values when the i-th absolute value is replaced by w[i]: (registers, switching arguments)
pub fn ref_switch(p: &Prog, x: &[f64], w: &[f64], u: f64) -> Option<(Vec<Nd>, Vec<Nd>)> {
    let l = lower(p);
    let seeds = vec![vec![]; p.n];
    let mut zs: Vec<Nd> = vec![];
    let nodes = propagate_k(&l, x, &seeds, 0, u, &mut |a| {
        zs.push(a.clone());
        Nd { v: w[zs.len() - 1], ev: 0.0, g: vec![], eg: vec![] }
    })?;
    Some((regs(&l, &nodes), zs))
}

#[derive(Clone, Debug)]
pub struct Piece {
    /// per register: g = [gradient of the selected piece (n) | offset | increment]
    pub regs: Vec<Nd>,
    pub ties: usize,
    /// a switching variable is too close to zero for its sign to be certain
    pub near: bool,
    pub sigma: Vec<f64>,
}

/// Selected linear piece at (x, dx); ties take the given bits in order, then false
pub fn ref_piece(p: &Prog, x: &[f64], dx: &[f64], bits: &[u8], u: f64) -> Option<Piece> {
    ref_piece_near(p, x, dx, bits, u, 1e-6)
}

/// `floor`: switching variables below count as near zero whatever their error bound
pub fn ref_piece_near(p: &Prog, x: &[f64], dx: &[f64], bits: &[u8], u: f64, floor: f64) -> Option<Piece> {
    let n = p.n;
    let k = n + 2;
    let mut l = lower(p);
    let seeds: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let mut s = unit(k, i);
            s[n + 1] = dx[i];
            s
        })
        .collect();
    let mut ties = 0;
    let mut near = false;
    let mut sigma = vec![];
    let nodes = propagate_k(&l, x, &seeds, k, u, &mut |a| {
        let z = a.v + a.g[n + 1];
        let ez = a.ev + a.eg[n + 1] + u * (a.v.abs() + a.g[n + 1].abs());
        if u > 0.0 && z.abs() <= floor + 100.0 * ez {
            near = true;
        }
        let s = if z > 0.0 {
            1.0
        } else if z < 0.0 {
            -1.0
        } else {
            let bit = bits.get(ties / 8).map_or(false, |b| (b >> (ties % 8)) & 1 == 1);
            ties += 1;
            if bit {
                1.0
            } else {
                -1.0
            }
        };
        sigma.push(s);
        let mut g: Vec<f64> = a.g.iter().map(|x| s * x).collect();
        let mut eg = a.eg.clone();
        g[n] = s * (a.v + a.g[n]) - a.v.abs();
        eg[n] = 2.0 * a.ev + a.eg[n] + u * (a.v.abs() + a.g[n].abs());
        let (d, e) = abs_delta(a, n + 1, u);
        g[n + 1] = d;
        eg[n + 1] = e;
        Nd { v: a.v.abs(), ev: a.ev, g, eg }
    })?;
    // magnitudes: every partial sum of the abs-normal evaluation is bounded by these
    l.mag = true;
    let mseeds: Vec<Vec<f64>> = seeds.iter().map(|s| s.iter().map(|x| x.abs()).collect()).collect();
    let mags = propagate_k(&l, x, &mseeds, k, u, &mut |a| {
        let mut r = Nd { v: a.v.abs(), ev: a.ev, g: a.g.clone(), eg: a.eg.clone() };
        for j in [n, n + 1] {
            r.g[j] += 2.0 * a.v.abs();
            r.eg[j] += 2.0 * a.ev + 4.0 * u * (a.v.abs() + a.g[j]);
        }
        r
    })?;
    let r = merge(regs(&l, &nodes), regs(&l, &mags));
    Some(Piece { regs: r, ties, near, sigma })
}

pub fn unit(k: usize, i: usize) -> Vec<f64> {
    let mut v = vec![0.0; k];
    v[i] = 1.0;
    v
}

/// |got - want| within twice the running bound (NaN never passes)
pub fn close(got: f64, want: f64, err: f64) -> bool {
    got == want || (got - want).abs() <= 2.0 * err + f64::MIN_POSITIVE
}

// ---------------------------------------------------------------------------------------------
// Generation: raw choices are compiled to a program that is valid at the given points
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct RawIns {
    pub op: u8,
    pub a: u16,
    pub b: u16,
    pub k: u8,
    pub c: f64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Raw {
    pub n: usize,
    pub ins: Vec<RawIns>,
    pub outs: Vec<u16>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    /// everything differentiable
    Smooth,
    /// everything
    Full,
    /// arithmetic that is exact in f64: add, sub, neg, mul, abs, max, min, powers of two
    Exact,
    /// as Exact without products of registers
    Pwl,
    /// only what the public operation constructors can express
    Prims,
    /// only what the C++ classes offer
    Cxx,
}

pub fn val() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => (-16i32..=16).prop_map(|i| i as f64 / 4.0),
        4 => (-4000i32..=4000).prop_map(|i| i as f64 / 1024.0),
        2 => (-4000i32..=4000).prop_map(|i| i as f64 / 1000.0),
        3 => any::<u64>().prop_map(full_mantissa),
        1 => prop::sample::select(vec![1e-17, -1e-20, 1e-30, -1e-9, 1e-5, 1e-12, -3e-40]),
        1 => prop::sample::select(vec![0.0, 1.0, -1.0, 2.0, 0.5, -0.5, -2.0, 10.0, -0.0, 0.001953125, 100.0, -50.0, 3.0]),
    ]
    .boxed()
}

/// a value in (-4, 4) whose mantissa uses all bits
pub fn full_mantissa(b: u64) -> f64 {
    (b as i64 as f64) / (1u64 << 61) as f64
}

/// small dyadic values for the exact profile
pub fn exact_val() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-2i32..=2).prop_map(|i| i as f64),
        2 => (-8i32..=8).prop_map(|i| i as f64 / 2.0),
    ]
    .boxed()
}

pub fn raw_ins() -> impl Strategy<Value = RawIns> {
    (any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>(), val())
        .prop_map(|(op, a, b, k, c)| RawIns { op, a, b, k, c })
}

pub fn raw(
    n: impl Strategy<Value = usize> + 'static,
    len: impl Into<proptest::collection::SizeRange>,
    m: impl Into<proptest::collection::SizeRange>,
) -> BoxedStrategy<Raw> {
    (
        n,
        proptest::collection::vec(raw_ins(), len),
        proptest::collection::vec(any::<u16>(), m),
    )
        .prop_map(|(n, ins, outs)| Raw { n, ins, outs })
        .boxed()
}

/// vectors of values, cut or cycled to the needed length by `fit`
pub fn vals(n: usize) -> BoxedStrategy<Vec<f64>> {
    proptest::collection::vec(val(), n).boxed()
}
pub fn exact_vals(n: usize) -> BoxedStrategy<Vec<f64>> {
    proptest::collection::vec(exact_val(), n).boxed()
}

pub fn fit(v: &[f64], n: usize) -> Vec<f64> {
    (0..n).map(|i| if v.is_empty() { 1.0 } else { v[i % v.len()] }).collect()
}

fn pick(raw: u16, len: usize) -> usize {
    if raw & 1 == 1 {
        len - 1 - ((raw as usize >> 1) % len.min(4))
    } else {
        (raw as usize >> 1) % len
    }
}

fn den(v: f64) -> i32 {
    let mut k = 0;
    let mut x = v;
    while x != x.trunc() && k < 60 {
        x *= 2.0;
        k += 1;
    }
    k
}

/// Guard state per point: value, error, magnitude over all derivative paths, its error, and
/// (exact profile) the number of fractional bits of path products
struct Guard<'a> {
    pts: &'a [Vec<f64>],
    nodes: Vec<Vec<Nd>>,
    gden: Vec<Vec<i32>>,
    profile: Profile,
    u: f64,
    cap_v: f64,
    cap_m: f64,
    tol: f64,
    /// products of smaller values could underflow
    tiny: f64,
}

pub struct Compiler<'a> {
    l: Lowered,
    prog: Prog,
    active: Vec<bool>,
    g: Guard<'a>,
}

impl<'a> Compiler<'a> {
    /// `incs` (exact profile): increments at the points, so that both stay exact
    pub fn new(n: usize, profile: Profile, pts: &'a [Vec<f64>], incs: &'a [Vec<f64>], f32mode: bool) -> Self {
        let exact = matches!(profile, Profile::Exact | Profile::Pwl);
        let g = Guard {
            pts,
            nodes: pts
                .iter()
                .enumerate()
                .map(|(q, x)| {
                    (0..n)
                        .map(|i| {
                            let d = incs.get(q).map_or(0.0, |d| d[i].abs());
                            let mag = if exact { x[i].abs().max(d).max(1.0) } else { 1.0 };
                            Nd { v: x[i], ev: 0.0, g: vec![mag], eg: vec![0.0] }
                        })
                        .collect()
                })
                .collect(),
            gden: pts
                .iter()
                .enumerate()
                .map(|(q, x)| {
                    (0..n)
                        .map(|i| den(x[i]).max(incs.get(q).map_or(0, |d| den(d[i]))))
                        .collect()
                })
                .collect(),
            profile,
            u: if exact {
                0.0
            } else if f32mode {
                U32
            } else {
                U64
            },
            cap_v: 1e4,
            cap_m: if f32mode { 1e4 } else { 1e6 },
            tol: if f32mode { 0.02 } else { 1e-7 },
            tiny: if f32mode { 1e-12 } else { 1e-60 },
        };
        Compiler {
            l: Lowered { n, ops: vec![], reg: (0..n).collect(), mag: false },
            prog: Prog { n, ins: vec![], outs: vec![] },
            active: vec![true; n],
            g,
        }
    }

    fn nregs(&self) -> usize {
        self.prog.nregs()
    }

    fn vals(&self, r: usize) -> impl Iterator<Item = f64> + '_ {
        self.g.nodes.iter().map(move |n| n[self.l.reg[r]].v)
    }

    fn min(&self, r: usize) -> f64 {
        self.vals(r).fold(f64::INFINITY, f64::min)
    }

    fn maxabs(&self, r: usize) -> f64 {
        self.vals(r).fold(0.0, |a, b| a.max(b.abs()))
    }

    /// append the instruction if it is valid at all points
    fn try_push(&mut self, i: Ins) -> bool {
        // absolute values of constants are not recorded: keep the counts simple
        let active = i.regs().iter().any(|r| self.active[*r]);
        if i.is_abs() && !active {
            return false;
        }
        let mut l = self.l.clone();
        let start = l.ops.len();
        lower_ins(&mut l, &i);
        let u = self.g.u;
        let exact = matches!(self.g.profile, Profile::Exact | Profile::Pwl);
        let mut added: Vec<Vec<Nd>> = vec![];
        let mut addedd: Vec<Vec<i32>> = vec![];
        for q in 0..self.g.pts.len() {
            let base = self.g.nodes[q].len();
            let mut nodes = std::mem::take(&mut self.g.nodes[q]);
            let mut ds = std::mem::take(&mut self.g.gden[q]);
            let mut ok = true;
            for o in &l.ops[start..] {
                let nd = step_ref(&l, o, &nodes, u, 1, &mut |a| Nd {
                    v: a.v.abs(),
                    ev: a.ev,
                    g: vec![a.g[0] + if exact { a.v.abs() + 1.0 } else { 0.0 }],
                    eg: a.eg.clone(),
                });
                let mut nd = match nd {
                    Some(nd) => nd,
                    None => {
                        ok = false;
                        break;
                    }
                };
                // magnitudes: absolute partials
                let mut d = den(nd.v);
                match *o {
                    Low::Bin(b, ia, ib) => {
                        let (a, bb) = (&nodes[ia], &nodes[ib]);
                        let zb = zero_base(&l.ops, l.n, o) && !is_lit(&l.ops, l.n, ib);
                        let p = if zb {
                            Pt { f: 0.0, scale: 0.0, pa: 0.0, pb: 0.0, h: 0.0 }
                        } else {
                            partials(o, a.v, bb.v, is_lit(&l.ops, l.n, ib)).unwrap()
                        };
                        nd.g[0] = p.pa.abs() * a.g[0] + p.pb.abs() * bb.g[0];
                        let _ = b;
                        d = d.max((den(p.pa) + ds[ia]).max(den(p.pb) + ds[ib]));
                    }
                    Low::Un(Un::Abs, a) => d = d.max(ds[a]),
                    Low::Un(_, a) => {
                        let p = partials(o, nodes[a].v, 0.0, false).unwrap();
                        nd.g[0] = p.pa.abs() * nodes[a].g[0];
                        d = d.max(den(p.pa) + ds[a]);
                    }
                    Low::MulAdd(a, b, c) => {
                        nd.g[0] = nodes[b].v.abs() * nodes[a].g[0]
                            + nodes[a].v.abs() * nodes[b].g[0]
                            + nodes[c].g[0];
                        d = d.max(den(nodes[b].v) + ds[a]).max(den(nodes[a].v) + ds[b]).max(ds[c]);
                    }
                    Low::Lit(_) => {}
                }
                if exact {
                    let m = nd.g[0].max(nd.v.abs()).max(1.0);
                    if m.log2() + d as f64 > 42.0 || m > 65536.0 || d > 24 {
                        ok = false;
                        break;
                    }
                } else if nd.v.abs() > self.g.cap_v
                    || nd.g[0] > self.g.cap_m
                    || nd.ev > self.g.tol * (1.0 + nd.v.abs())
                    || nd.eg[0] > self.g.tol * (1.0 + nd.g[0])
                    || (nd.v != 0.0 && nd.v.abs() < self.g.tiny)
                {
                    ok = false;
                    break;
                }
                nodes.push(nd);
                ds.push(d);
            }
            added.push(if ok { nodes[base..].to_vec() } else { vec![] });
            addedd.push(if ok { ds[base..].to_vec() } else { vec![] });
            nodes.truncate(base);
            ds.truncate(base);
            self.g.nodes[q] = nodes;
            self.g.gden[q] = ds;
            if !ok {
                return false;
            }
        }
        for q in 0..self.g.pts.len() {
            let a = std::mem::take(&mut added[q]);
            self.g.nodes[q].extend(a);
            let a = std::mem::take(&mut addedd[q]);
            self.g.gden[q].extend(a);
        }
        self.l = l;
        self.prog.ins.push(i);
        self.active.push(active);
        true
    }

    /// a register that is >= 0.05 at all points
    fn positive(&mut self, r: usize) -> usize {
        if self.min(r) >= 0.06 {
            return r;
        }
        if self.maxabs(r) < 50.0
            && self.try_push(Ins::Bin(Bin::Mul, Opd::R(r), Opd::R(r), false))
        {
            let t = self.nregs() - 1;
            if self.try_push(Ins::Bin(Bin::Add, Opd::R(t), Opd::F(0.5), false)) {
                return self.nregs() - 1;
            }
        }
        self.try_push(Ins::Un(Un::Sin, r));
        let t = self.nregs() - 1;
        self.try_push(Ins::Bin(Bin::Add, Opd::F(1.5), Opd::R(t), false));
        self.nregs() - 1
    }

    /// a register within (-0.9, 0.9)
    fn small(&mut self, r: usize) -> usize {
        if self.maxabs(r) <= 0.9 {
            return r;
        }
        if self.try_push(Ins::Un(Un::Sin, r)) {
            let t = self.nregs() - 1;
            if self.try_push(Ins::Bin(Bin::Mul, Opd::R(t), Opd::F(0.875), false)) {
                return self.nregs() - 1;
            }
        }
        r
    }

    fn fallback(&mut self, r: &RawIns) {
        if self.nregs() > 0 {
            let exact = matches!(self.g.profile, Profile::Exact | Profile::Pwl);
            let a = pick(r.a, self.nregs());
            let bounded = if self.g.profile == Profile::Cxx { Un::Sin } else { Un::Atan };
            if !exact && self.try_push(Ins::Un(bounded, a)) {
                return;
            }
            if self.prog.n > 0 {
                let a = (r.a as usize) % self.prog.n;
                let i = if matches!(self.g.profile, Profile::Prims | Profile::Cxx) {
                    Ins::Bin(Bin::Mul, Opd::F(-1.0), Opd::R(a), false)
                } else {
                    Ins::Un(Un::Neg, a)
                };
                if self.try_push(i) {
                    return;
                }
            }
        }
        self.try_push(Ins::Const(1.0));
    }

    fn one(&mut self, r: &RawIns, f32mode: bool) {
        let nr = self.nregs();
        if nr == 0 {
            self.try_push(Ins::Const(r.c));
            return;
        }
        let a = pick(r.a, nr);
        let mut b = pick(r.b, nr);
        if r.k & 0x70 == 0x70 {
            b = a;
        }
        let c = if f32mode { r.c as f32 as f64 } else { r.c };
        let exact_c = [0.5, 2.0, -1.0, 1.0, -2.0, 0.0, 3.0][(r.b % 7) as usize];
        // operand forms
        let forms = |c: f64, plain: bool| match r.k % 5 {
            0 | 1 => (Opd::R(a), Opd::R(b)),
            2 => (Opd::R(a), if plain { Opd::F(c) } else { Opd::C(c) }),
            3 => (if plain { Opd::F(c) } else { Opd::C(c) }, Opd::R(b)),
            _ => {
                if r.k & 0x80 != 0 {
                    (Opd::R(a), Opd::C(c))
                } else {
                    (Opd::C(c), Opd::R(b))
                }
            }
        };
        let assign = r.k & 0x08 != 0 && self.g.profile != Profile::Cxx;
        let mk = |op: Bin, (x, y): (Opd, Opd)| Ins::Bin(op, x, y, assign && matches!(x, Opd::R(_)));
        let done = match self.g.profile {
            Profile::Exact | Profile::Pwl => {
                let pwl = self.g.profile == Profile::Pwl;
                let (x, y) = forms(exact_c, true);
                let (cx, cy) = forms(exact_c, false);
                match r.op % 16 {
                    0 | 1 => self.try_push(mk(Bin::Add, (x, y))),
                    2 | 3 | 4 => self.try_push(mk(Bin::Sub, (x, y))),
                    5 => {
                        if pwl && matches!((x, y), (Opd::R(_), Opd::R(_))) {
                            self.try_push(mk(Bin::Mul, (Opd::R(a), Opd::F(exact_c))))
                        } else {
                            self.try_push(mk(Bin::Mul, (x, y)))
                        }
                    }
                    6 => self.try_push(mk(
                        Bin::Div,
                        (Opd::R(a), Opd::F([2.0, 0.5, -2.0, 1.0][(r.b % 4) as usize])),
                    )),
                    7 => self.try_push(Ins::Un(Un::Neg, a)),
                    8 | 9 | 10 => self.try_push(Ins::Un(Un::Abs, a)),
                    11 => self.try_push(Ins::Bin(Bin::Max, cx, cy, false)),
                    12 => self.try_push(Ins::Bin(Bin::Min, cx, cy, false)),
                    13 => self.try_push(Ins::Bin(Bin::AbsSub, cx, cy, false)),
                    14 => {
                        if pwl {
                            self.try_push(mk(Bin::Sub, (Opd::R(b), Opd::R(a))))
                        } else {
                            self.try_push(Ins::Un(Un::Powi(2), a))
                        }
                    }
                    _ => {
                        if pwl {
                            self.try_push(Ins::Const(exact_c))
                        } else {
                            self.try_push(Ins::MulAdd(a, b, (r.k as usize) % nr))
                        }
                    }
                }
            }
            Profile::Prims => {
                let (x, y) = forms(c, true);
                match r.op % 20 {
                    0 | 1 => self.try_push(mk(Bin::Add, (x, y))),
                    2 | 3 => self.try_push(mk(Bin::Sub, (x, y))),
                    4 | 5 => self.try_push(mk(Bin::Mul, (x, y))),
                    6 => self.try_push(mk(Bin::Div, (x, y))),
                    7 => {
                        let p = self.positive(b);
                        self.try_push(mk(Bin::Div, (Opd::R(a), Opd::R(p))))
                    }
                    8 => self.try_push(Ins::Un(Un::Sin, a)),
                    9 => self.try_push(Ins::Un(Un::Cos, a)),
                    10 => self.try_push(Ins::Un(Un::Tan, a)),
                    11 => {
                        if r.k & 2 == 0 {
                            self.try_push(Ins::Un(Un::Abs, a))
                        } else {
                            self.try_push(Ins::Bin(
                                [Bin::Max, Bin::Min][(r.k & 1) as usize],
                                x,
                                y,
                                false,
                            ))
                        }
                    }
                    12 => self.try_push(Ins::Un(Un::Exp, a)),
                    13 => {
                        let a = self.positive(a);
                        self.try_push(Ins::Un(Un::Ln, a))
                    }
                    14 => {
                        let a = self.small(a);
                        self.try_push(Ins::Un(Un::Asin, a))
                    }
                    15 => {
                        let a = self.small(a);
                        self.try_push(Ins::Un(Un::Acos, a))
                    }
                    16 => self.try_push(Ins::Un(Un::Atan, a)),
                    17 | 18 => self.pow(a, b, c, r.k),
                    _ => self.try_push(Ins::Const(c)),
                }
            }
            Profile::Cxx => {
                let (x, y) = forms(c, true);
                match r.op % 19 {
                    0 | 1 => self.try_push(mk(Bin::Add, (x, y))),
                    2 | 3 => self.try_push(mk(Bin::Sub, (x, y))),
                    4 | 5 => self.try_push(mk(Bin::Mul, (x, y))),
                    6 => self.try_push(mk(Bin::Div, (x, y))),
                    7 => {
                        let p = self.positive(b);
                        let l = if let Opd::R(_) = x { Opd::R(a) } else { x };
                        self.try_push(mk(Bin::Div, (l, Opd::R(p))))
                    }
                    8 => self.try_push(Ins::Un(Un::Sin, a)),
                    9 => self.try_push(Ins::Un(Un::Cos, a)),
                    10 => self.try_push(Ins::Un(Un::Tan, a)),
                    11 | 12 => self.try_push(Ins::Un(Un::Abs, a)),
                    13 => self.try_push(Ins::Un(Un::Exp, a)),
                    14 => {
                        let a = self.positive(a);
                        self.try_push(Ins::Un(Un::Ln, a))
                    }
                    15 => self.try_push(Ins::Bin(Bin::Max, x, y, false)),
                    16 => self.try_push(Ins::Bin(Bin::Min, x, y, false)),
                    17 => self.try_push(Ins::Const(c)),
                    _ => self.try_push(mk(Bin::Mul, (Opd::R(a), Opd::R(a)))),
                }
            }
            Profile::Smooth | Profile::Full => {
                let (x, y) = forms(c, true);
                let (cx, cy) = forms(c, false);
                let full = self.g.profile == Profile::Full;
                match r.op % 40 {
                    0 | 1 | 36 => self.try_push(mk(Bin::Add, (x, y))),
                    2 | 3 | 37 => self.try_push(mk(Bin::Sub, (x, y))),
                    4 | 5 | 38 => self.try_push(mk(Bin::Mul, (x, y))),
                    6 => self.try_push(mk(Bin::Div, (x, y))),
                    7 => {
                        let p = self.positive(b);
                        self.try_push(mk(Bin::Div, (Opd::R(a), Opd::R(p))))
                    }
                    8 => self.try_push(Ins::Un(Un::Sin, a)),
                    9 => self.try_push(Ins::Un(Un::Cos, a)),
                    10 => self.try_push(Ins::Un(Un::Tan, a)),
                    11 => self.try_push(Ins::Un(Un::Exp, a)),
                    12 => {
                        let a = self.positive(a);
                        self.try_push(Ins::Un(Un::Ln, a))
                    }
                    13 => {
                        let a = self.small(a);
                        self.try_push(Ins::Un(Un::Asin, a))
                    }
                    14 => {
                        let a = self.small(a);
                        self.try_push(Ins::Un(Un::Acos, a))
                    }
                    15 => self.try_push(Ins::Un(Un::Atan, a)),
                    16 => {
                        let a = self.positive(a);
                        self.try_push(Ins::Un(Un::Sqrt, a))
                    }
                    17 => self.try_push(Ins::Un(Un::Cbrt, a)),
                    18 => self.try_push(Ins::Un(Un::Exp2, a)),
                    19 => {
                        let a = self.positive(a);
                        self.try_push(Ins::Un(Un::Log2, a))
                    }
                    20 => {
                        let a = self.positive(a);
                        self.try_push(Ins::Un(Un::Log10, a))
                    }
                    21 => self.try_push(Ins::Un(Un::Recip, a)),
                    22 => self.try_push(Ins::Un(Un::Neg, a)),
                    23 => self.try_push(Ins::Un(
                        [Un::ToDeg, Un::ToRad, Un::SinCos(false), Un::SinCos(true)][(r.k % 4) as usize],
                        a,
                    )),
                    24 | 25 => self.try_push(Ins::Un(Un::Powi(r.k as i32 % 10 - 3), a)),
                    26 | 27 | 28 => self.pow(a, b, c, r.k),
                    29 => self.try_push(Ins::Bin(Bin::Hypot, cx, cy, false)),
                    30 => {
                        let a = self.positive(a);
                        let b = self.positive(b);
                        self.try_push(Ins::Bin(Bin::Log, Opd::R(a), Opd::R(b), false))
                    }
                    31 => self.try_push(Ins::MulAdd(a, b, (r.k as usize) % nr)),
                    32 => self.try_push(Ins::Const(c)),
                    33 | 34 | 35 | 39 if full => match r.op / 40 {
                        0 | 1 => self.try_push(Ins::Un(Un::Abs, a)),
                        2 | 3 => self.try_push(Ins::Bin(Bin::Max, cx, cy, false)),
                        4 => self.try_push(Ins::Bin(Bin::Min, cx, cy, false)),
                        _ => self.try_push(Ins::Bin(Bin::AbsSub, cx, cy, false)),
                    },
                    33 => self.try_push(mk(Bin::Mul, (Opd::R(a), Opd::R(a)))),
                    34 => self.try_push(mk(Bin::Div, (Opd::R(a), Opd::R(a)))),
                    35 => self.try_push(mk(Bin::Sub, (Opd::R(a), Opd::R(a)))),
                    _ => self.try_push(mk(Bin::Mul, (Opd::R(a), Opd::R(b)))),
                }
            }
        };
        if !done {
            self.fallback(r);
        }
    }

    fn pow(&mut self, a: usize, b: usize, c: f64, k: u8) -> bool {
        let int = (k % 8) as f64 - 3.0;
        match k / 36 {
            0 | 1 => {
                let a = self.positive(a);
                self.try_push(Ins::Bin(Bin::Powf, Opd::R(a), Opd::R(b), false))
            }
            2 => {
                let a = self.positive(a);
                self.try_push(Ins::Bin(Bin::Powf, Opd::R(a), Opd::C(c), false))
            }
            3 => self.try_push(Ins::Bin(Bin::Powf, Opd::R(a), Opd::C(int), false)),
            4 => {
                let base = if c > 0.06 { c } else { c.abs() + 0.5 };
                let base = if self.g.u == U32 { base as f32 as f64 } else { base };
                self.try_push(Ins::Bin(Bin::Powf, Opd::C(base), Opd::R(b), false))
            }
            5 => {
                let b = self.positive(b);
                self.try_push(Ins::Bin(Bin::Powf, Opd::C(0.0), Opd::R(b), false))
            }
            6 => {
                let a = self.positive(a);
                self.try_push(Ins::Bin(Bin::Powf, Opd::R(a), Opd::R(a), false))
            }
            _ => self.try_push(Ins::Bin(Bin::Powf, Opd::R(a), Opd::C(0.0), false)),
        }
    }
}

/// Is the program valid (well conditioned, exact) at all points?
pub fn valid(p: &Prog, profile: Profile, pts: &[Vec<f64>], incs: &[Vec<f64>]) -> bool {
    let mut c = Compiler::new(p.n, profile, pts, incs, false);
    p.ins.iter().all(|i| c.try_push(*i))
}

/// Compile raw choices into a program that is valid (and well conditioned) at all points
pub fn compile(raw: &Raw, profile: Profile, pts: &[Vec<f64>], incs: &[Vec<f64>], f32mode: bool) -> Prog {
    let mut c = Compiler::new(raw.n, profile, pts, incs, f32mode);
    for r in &raw.ins {
        c.one(r, f32mode);
    }
    if c.nregs() == 0 && !raw.outs.is_empty() {
        c.try_push(Ins::Const(1.0));
    }
    let nr = c.nregs();
    let mut p = c.prog;
    p.outs = raw.outs.iter().map(|o| pick(*o, nr)).collect();
    p
}
