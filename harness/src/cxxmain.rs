//! cxxcheck C23|C24: the C++ classes, driven step by step through cxx/driver.cpp. Built with
//! AddressSanitizer on both sides.
mod fw;
#[allow(dead_code)]
mod ir;

use advantage as adv;
use adv::{AContext, AFloat, DVector, Float, Tape};
use fw::*;
use ir::*;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::RwLock;
use std::collections::HashSet;
use std::sync::Mutex;

// ---- allocations on the Rust side, per thread -------------------------------------------------

struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|c| c.set(c.get() - 1));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

enum Machine {}
extern "C" {
    fn drv_live() -> std::ffi::c_long;
    fn drv_new(nums: usize, ctxs: usize) -> *mut Machine;
    fn drv_free(m: *mut Machine);
    fn drv_num(m: *mut Machine, op: i32, f: i32, a: i32, b: i32, c: i32, x: f64);
    fn drv_ctx(m: *mut Machine, op: i32, a: i32, b: i32);
    fn drv_plain1(f: i32, a: f64) -> f64;
    fn drv_plain2(f: i32, a: f64, b: f64) -> f64;
}

struct Cxx(*mut Machine);
impl Cxx {
    fn new(nums: usize, ctxs: usize) -> Cxx {
        Cxx(unsafe { drv_new(nums, ctxs) })
    }
    fn num(&self, op: i32, f: i32, a: usize, b: usize, c: usize, x: f64) {
        unsafe { drv_num(self.0, op, f, a as i32, b as i32, c as i32, x) }
    }
    fn ctx(&self, op: i32, a: usize, b: usize) {
        unsafe { drv_ctx(self.0, op, a as i32, b as i32) }
    }
}
impl Drop for Cxx {
    fn drop(&mut self) {
        unsafe { drv_free(self.0) }
    }
}

/// Recordings are created one at a time, so that the next id is known to be the one made in C++
static CREATE: Mutex<()> = Mutex::new(());

/// A Rust recording and, by its id, a C++ one in slot `a`
fn create(m: &Cxx, a: usize) -> Result<(AContext, usize), String> {
    let _g = CREATE.lock().unwrap_or_else(|e| e.into_inner());
    let twin = AContext::new();
    m.ctx(0, a, 0);
    let k = twin.cid();
    match (k + 1..k + 1000).find(|c| AContext::from_cid(*c).is_some()) {
        Some(c) => Ok((twin, c)),
        None => Err("the recording made in C++ is not found".into()),
    }
}

fn dv(v: &[f64]) -> DVector<f64> {
    DVector::from_column_slice(v)
}

// ---------------------------------------------------------------------------------------------
// C23
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExprCase {
    raw: Raw,
    pts: Vec<Vec<f64>>,
    dx: Vec<f64>,
    w: Vec<f64>,
    /// how each result gets to its place
    style: Vec<u8>,
}

fn expr_case() -> BoxedStrategy<ExprCase> {
    (raw(1usize..5, 1..12, 1..4usize), pvec(vals(4), 1..3), vals(4), vals(4), pvec(any::<u8>(), 6))
        .prop_map(|(raw, pts, dx, w, style)| ExprCase { raw, pts, dx, w, style })
        .boxed()
}

fn un_code(u: Un) -> i32 {
    match u {
        Un::Sin => 0,
        Un::Cos => 1,
        Un::Tan => 2,
        Un::Abs => 3,
        Un::Exp => 4,
        Un::Ln => 5,
        _ => unreachable!("{:?}", u),
    }
}
fn bin_code(b: Bin) -> i32 {
    match b {
        Bin::Add => 0,
        Bin::Sub => 1,
        Bin::Mul => 2,
        Bin::Div => 3,
        Bin::Max => 4,
        Bin::Min => 5,
        _ => unreachable!("{:?}", b),
    }
}

fn check_expr(c: &ExprCase, o: &mut Obs) -> Res {
    let n = c.raw.n;
    let pts: Vec<Vec<f64>> = c.pts.iter().map(|x| fit(x, n)).collect();
    let p = compile(&c.raw, Profile::Cxx, &pts, &[], false);
    let m = p.m();
    o.sample(|| p.show());
    o.nontrivial = p.ins.len() >= 2;
    o.class_if(p.num_abs() > 0, "abs/max/min");
    let plain_left = |i: &Ins| matches!(i, Ins::Bin(_, Opd::F(_), _, _));
    o.class_if(p.ins.iter().any(plain_left), "plain number on the left");
    o.class_if(p.ins.iter().any(|i| matches!(i, Ins::Bin(_, _, Opd::F(_), _))), "plain number on the right");
    let cxx = Cxx::new(p.nregs() + 1, 1);
    let tmp = p.nregs();
    let (_twin, cid) = create(&cxx, 0)?;
    for i in 0..n {
        if c.style[i % 6] & 1 == 0 {
            cxx.ctx(4, 0, i);
        } else {
            cxx.num(0, 0, i, 0, 0, 0.0);
            cxx.ctx(5, 0, i);
        }
    }
    for (k, ins) in p.ins.iter().enumerate() {
        let a = n + k;
        let style = c.style[k % 6] as usize;
        if style & 8 != 0 {
            // assigned to an existing number instead of constructing one
            cxx.num(1, 0, a, 0, 0, 7.0);
        }
        match *ins {
            Ins::Const(v) => cxx.num(1, 0, a, 0, 0, v),
            Ins::Un(u, b) => cxx.num([23, 26][style % 2], un_code(u), a, b, 0, 0.0),
            Ins::Bin(f, x, y, _) => {
                let f = bin_code(f);
                match (x, y) {
                    (Opd::R(x), Opd::R(y)) => cxx.num([20, 24, 25][style % 3], f, a, x, y, 0.0),
                    (Opd::R(x), Opd::F(v)) => cxx.num(21, f, a, x, 0, v),
                    (Opd::F(v), Opd::R(y)) => cxx.num(22, f, a, y, 0, v),
                    (Opd::R(x), Opd::C(v)) => {
                        cxx.num(1, 0, tmp, 0, 0, v);
                        cxx.num(20, f, a, x, tmp, 0.0)
                    }
                    (Opd::C(v), Opd::R(y)) => {
                        cxx.num(1, 0, tmp, 0, 0, v);
                        cxx.num(20, f, a, tmp, y, 0.0)
                    }
                    _ => unreachable!(),
                }
            }
            _ => unreachable!(),
        }
    }
    for (k, r) in p.outs.iter().enumerate() {
        cxx.ctx(6 + (c.style[k % 6] & 1) as i32, 0, *r);
    }
    let rec = AContext::from_cid(cid).ok_or("recording is not found")?;
    let mut tape = rec.tape();
    ensure!(tape.num_indeps() == n && tape.num_deps() == m, "{} inputs and {} outputs recorded, want {} and {}", tape.num_indeps(), tape.num_deps(), n, m);
    ensure!(tape.num_abs() == p.num_abs(), "num_abs {} want {}", tape.num_abs(), p.num_abs());
    let dx = fit(&c.dx, n);
    let w = fit(&c.w, m);
    for x in &pts {
        total("zero_order", || tape.zero_order(&dv(x)))?;
        let want = ref_delta(&p, x, &dx, U64).expect("valid");
        let y = tape.y();
        let dy = total("forward sweep", || tape.first_order_forward(&dv(&dx)))?;
        for (j, r) in p.outs.iter().enumerate() {
            let q = &want[*r];
            ensure!(close(y[j], q.v, q.ev), "output {} at {:?} is {:?}, want {:?}; {}", j, x, y[j], q.v, p.show());
            ensure!(close(dy[j], q.g[0], q.eg[0]), "derivative of output {} at {:?} along {:?} is {:?}, want {:?}; {}", j, x, dx, dy[j], q.g[0], p.show());
        }
        if p.num_abs() == 0 {
            let g = ref_grad(&p, x, U64).expect("valid");
            let xb = total("reverse sweep", || tape.first_order_reverse(&dv(&w)))?;
            for i in 0..n {
                let (mut v, mut e) = (0.0, 0.0);
                for (j, r) in p.outs.iter().enumerate() {
                    v += w[j] * g[*r].g[i];
                    e += w[j].abs() * (g[*r].eg[i] + 1e-14 * g[*r].g[i].abs());
                }
                ensure!(close(xb[i], v, e), "reverse sweep at {:?}: entry {} is {:?}, want {:?}; {}", x, i, xb[i], v, p.show());
            }
        }
    }
    drop(rec);
    drop(cxx);
    ensure!(AContext::from_cid(cid).is_none(), "the recording is found after the C++ object is gone");
    Ok(())
}

fn any_double() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => val(),
        3 => (-30.0f64..30.0),
        2 => any::<u64>().prop_map(f64::from_bits),
        2 => (-1080i32..1024, any::<bool>(), 1.0f64..2.0).prop_map(|(k, s, m)| if s { -m } else { m } * 2f64.powi(k)),
        1 => prop::sample::select(vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, 5e-324, -5e-324, 800.0, -800.0]),
    ]
    .boxed()
}

fn c23(run: &mut Run) {
    run.rule = "Random expressions over the exported C++ operations (active and plain operands on \
        either side, temporaries, copies, assignment to existing objects), recorded by the C++ \
        classes and looked up from Rust: outputs, forward and reverse derivatives at random points \
        are compared with the reference. Plain overloads on random doubles. Non-trivial: at least 2 \
        operations.";
    run.sub("recorded", (25_000, 500_000), expr_case, check_expr);
    run.sub("single-op", (15_000, 200_000), || {
        (raw(1usize..3, 1..3, 1..3usize), pvec(vals(4), 1..2), vals(4), vals(4), pvec(any::<u8>(), 6))
            .prop_map(|(raw, pts, dx, w, style)| ExprCase { raw, pts, dx, w, style })
    }, |c, o| {
        check_expr(c, o)?;
        o.nontrivial = true;
        Ok(())
    });
    run.sub("plain", (20_000, 200_000), || (any_double(), any_double()), |(a, b): &(f64, f64), o| {
        o.nontrivial = true;
        let (a, b) = (*a, *b);
        let fs: [(&str, f64); 6] = [("sin", a.sin()), ("cos", a.cos()), ("tan", a.tan()), ("abs", a.abs()), ("exp", a.exp()), ("ln", a.ln())];
        for (k, (name, want)) in fs.iter().enumerate() {
            let got = unsafe { drv_plain1(k as i32, a) };
            ensure!(got == *want || (got.is_nan() && want.is_nan()) || (got.is_finite() && want.is_finite() && (got - want).abs() <= 1e-14 * want.abs().max(f64::MIN_POSITIVE)), "{}({:?}) is {:?}, want {:?}", name, a, got, want);
        }
        if a.is_nan() || b.is_nan() {
            // no ordinary order
            return Ok(());
        }
        for (k, name, want) in [(0, "max", a.max(b)), (1, "min", a.min(b))] {
            let got = unsafe { drv_plain2(k, a, b) };
            ensure!(got == want || (got.is_nan() && want.is_nan()), "{}({:?}, {:?}) is {:?}", name, a, b, got);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------------------------

const NUMS: usize = 6;
const CTXS: usize = 3;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Step {
    op: u8,
    f: u8,
    a: u8,
    b: u8,
    c: u8,
    x: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ObjCase {
    steps: Vec<Step>,
    pts: Vec<Vec<f64>>,
}

fn obj_case() -> BoxedStrategy<ObjCase> {
    let step = (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), exact_val())
        .prop_map(|(op, f, a, b, c, x)| Step { op, f, a, b, c, x });
    (pvec(step, 1..45), pvec(exact_vals(5), 1..3))
        .prop_map(|(steps, pts)| ObjCase { steps, pts })
        .boxed()
}

#[derive(Clone, Copy)]
enum Num {
    None,
    /// moved from: only assigned to or destroyed
    Moved,
    Val(AFloat<f64>, Option<usize>),
}

#[derive(Clone, Copy, PartialEq)]
enum Slot {
    None,
    Moved,
    Live(usize),
}

struct Pair {
    twin: Option<AContext>,
    cid: usize,
}

struct Sim {
    cxx: Cxx,
    nums: [Num; NUMS],
    ctxs: [Slot; CTXS],
    pairs: Vec<Pair>,
    seen: HashSet<&'static str>,
}

fn same(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + scale)
}

impl Sim {
    fn alive(&self, h: usize) -> bool {
        self.pairs[h].twin.is_some()
    }

    /// The C++ recording is the same function as its Rust twin
    fn compare(&self, h: usize, pts: &[Vec<f64>]) -> Res {
        let p = &self.pairs[h];
        let twin = p.twin.as_ref().unwrap();
        let rec = AContext::from_cid(p.cid).ok_or_else(|| format!("recording {} is lost", h))?;
        let (mut a, mut b) = (rec.tape(), twin.tape());
        ensure!(
            a.num_indeps() == b.num_indeps() && a.num_deps() == b.num_deps() && a.num_abs() == b.num_abs(),
            "recording {}: {} inputs, {} outputs, {} absolute values, want {}, {}, {}",
            h, a.num_indeps(), a.num_deps(), a.num_abs(), b.num_indeps(), b.num_deps(), b.num_abs()
        );
        let n = b.num_indeps();
        for k in 0..=pts.len() {
            if k > 0 {
                let x = dv(&fit(&pts[k - 1], n));
                total("replay", || a.zero_order(&x))?;
                b.zero_order(&x);
            }
            let scale = b.values().iter().fold(0.0f64, |m, v| m.max(v.abs()));
            let d = dv(&(0..n).map(|i| 1.0 + i as f64).collect::<Vec<_>>());
            let (da, db) = (total("forward sweep", || a.first_order_forward(&d))?, b.first_order_forward(&d));
            for j in 0..b.num_deps() {
                ensure!(same(a.y()[j], b.y()[j], scale), "recording {}: output {} is {:?}, want {:?}", h, j, a.y()[j], b.y()[j]);
                ensure!(same(da[j], db[j], scale * 100.0), "recording {}: derivative of output {} is {:?}, want {:?}", h, j, da[j], db[j]);
            }
        }
        Ok(())
    }

    /// A C++ recording is destroyed by `f`
    fn destroy(&mut self, h: usize, pts: &[Vec<f64>], f: impl FnOnce(&Cxx)) -> Res {
        self.compare(h, pts)?;
        self.pairs[h].twin = None;
        f(&self.cxx);
        ensure!(AContext::from_cid(self.pairs[h].cid).is_none(), "recording {} is found after its C++ object is gone", h);
        Ok(())
    }

    fn step(&mut self, s: &Step, pts: &[Vec<f64>]) -> Res {
        let (a, b, c) = (s.a as usize % NUMS, s.b as usize % NUMS, s.c as usize % NUMS);
        let val = |q: usize, me: &Sim| if let Num::Val(x, h) = me.nums[q] { Some((x, h)) } else { None };
        let (va, vb, vc) = (val(a, self), val(b, self), val(c, self));
        let exists_a = !matches!(self.nums[a], Num::None);
        let (ca, cb) = (s.a as usize % CTXS, s.b as usize % CTXS);
        let f = s.f as i32;
        let num = |me: &Sim, op: i32, f: i32| me.cxx.num(op, f, a, b, c, s.x);
        match s.op % 40 {
            0 => {
                num(self, 0, 0);
                self.nums[a] = Num::Val(AFloat::from(0.0), None);
            }
            1 | 2 => {
                num(self, 1, 0);
                self.nums[a] = Num::Val(AFloat::from(s.x), None);
            }
            3 | 4 => {
                if vb.is_some() && a != b {
                    num(self, 2, 0);
                    self.nums[a] = self.nums[b];
                    self.seen.insert("copied");
                }
            }
            5 => {
                if vb.is_some() && a != b {
                    num(self, 3, 0);
                    self.nums[a] = self.nums[b];
                    self.nums[b] = Num::Moved;
                    self.seen.insert("moved");
                }
            }
            6 | 7 | 8 => {
                if vb.is_some() && exists_a {
                    num(self, 4, 0);
                    self.nums[a] = self.nums[b];
                    self.seen.insert(if a == b { "copy-assigned to itself" } else { "copy-assigned" });
                }
            }
            9 | 10 => {
                if vb.is_some() && exists_a && a != b {
                    num(self, 5, 0);
                    self.nums[a] = self.nums[b];
                    self.nums[b] = Num::Moved;
                    self.seen.insert("move-assigned");
                }
            }
            11 => {
                num(self, 6, 0);
                self.nums[a] = Num::None;
            }
            12 => {
                if va.is_some() && vb.is_some() && a != b {
                    num(self, 7, 0);
                    self.nums.swap(a, b);
                    self.seen.insert("swapped");
                }
            }
            13 => {
                if vb.is_some() {
                    num(self, 8, 0);
                    self.nums[a] = self.nums[b];
                }
            }
            14 => {
                if vb.is_some() && a != b {
                    num(self, 9, 0);
                    self.nums[a] = self.nums[b];
                    self.nums[b] = Num::Moved;
                }
            }
            15 => {
                if vb.is_some() {
                    num(self, 10, f % 9);
                    self.nums[a] = self.nums[b];
                    self.seen.insert("container");
                }
            }
            16 => {
                if exists_a {
                    num(self, 11, 0);
                    self.nums[a] = Num::Val(AFloat::from(s.x), None);
                    self.seen.insert("moved onto itself");
                }
            }
            17 => {
                if vb.is_some() {
                    num(self, 12, 0);
                    self.nums[a] = self.nums[b];
                    self.seen.insert("copy-assigned to itself");
                }
            }
            18 => {
                if exists_a {
                    num(self, 13, 0);
                    self.nums[a] = Num::Val(AFloat::from(s.x), None);
                }
            }
            19..=25 => {
                // arithmetic that stays exact for small dyadic numbers
                if let (Some((x, hx)), Some((y, hy))) = (vb, vc) {
                    if hx.is_some() && hy.is_some() && hx != hy {
                        return Ok(());
                    }
                    let k = f % 4;
                    let r = match k {
                        0 => x + y,
                        1 => x - y,
                        2 => x.max(y),
                        _ => x.min(y),
                    };
                    num(self, [20, 24, 25, 20][s.op as usize % 4], [0, 1, 4, 5][k as usize]);
                    self.nums[a] = Num::Val(r, hx.or(hy));
                    self.seen.insert("arithmetic");
                }
            }
            26 => {
                if let Some((x, h)) = vb {
                    let q = [0.5, 2.0, -1.0, 1.5][s.c as usize % 4];
                    let (op, k, r) = match f % 4 {
                        0 => (21, 2, x * q),
                        1 => (22, 2, q * x),
                        2 => (21, 1, x - q),
                        _ => (22, 1, q - x),
                    };
                    self.cxx.num(op, k, a, b, c, q);
                    self.nums[a] = Num::Val(r, h);
                }
            }
            27 => {
                if let Some((x, h)) = vb {
                    num(self, [23, 26][f as usize % 2], 3);
                    self.nums[a] = Num::Val(x.abs(), h);
                }
            }
            28 | 29 => {
                if self.pairs.len() < 8 {
                    let old = self.ctxs[ca];
                    if let Slot::Live(h) = old {
                        // replaced by a new one
                        self.compare(h, pts)?;
                        self.pairs[h].twin = None;
                    }
                    let (twin, cid) = create(&self.cxx, ca)?;
                    if let Slot::Live(h) = old {
                        ensure!(AContext::from_cid(self.pairs[h].cid).is_none(), "a replaced recording is still found");
                    }
                    self.pairs.push(Pair { twin: Some(twin), cid });
                    self.ctxs[ca] = Slot::Live(self.pairs.len() - 1);
                }
            }
            30 => {
                if let (Slot::Live(_), true, Slot::None) = (self.ctxs[cb], ca != cb, self.ctxs[ca]) {
                    self.cxx.ctx(1, ca, cb);
                    self.ctxs[ca] = self.ctxs[cb];
                    self.ctxs[cb] = Slot::Moved;
                    self.seen.insert("recording moved");
                } else if let (Slot::Moved, true, Slot::None) = (self.ctxs[cb], ca != cb, self.ctxs[ca]) {
                    self.cxx.ctx(1, ca, cb);
                    self.ctxs[ca] = Slot::Moved;
                }
            }
            31 | 32 => {
                if let (Slot::Live(_), true) = (self.ctxs[cb], ca != cb) {
                    match self.ctxs[ca] {
                        Slot::None => {}
                        Slot::Moved => {
                            self.cxx.ctx(2, ca, cb);
                            self.ctxs[ca] = self.ctxs[cb];
                            self.ctxs[cb] = Slot::Moved;
                            self.seen.insert("recording assigned to a moved one");
                        }
                        Slot::Live(h) => {
                            self.destroy(h, pts, |m| m.ctx(2, ca, cb))?;
                            self.ctxs[ca] = self.ctxs[cb];
                            self.ctxs[cb] = Slot::Moved;
                            self.seen.insert("recording replaced by assignment");
                        }
                    }
                } else if let (Slot::Moved, true) = (self.ctxs[cb], ca != cb) {
                    // an empty one is assigned
                    match self.ctxs[ca] {
                        Slot::None => {}
                        Slot::Moved => self.cxx.ctx(2, ca, cb),
                        Slot::Live(h) => {
                            self.destroy(h, pts, |m| m.ctx(2, ca, cb))?;
                            self.ctxs[ca] = Slot::Moved;
                            self.seen.insert("recording replaced by an empty one");
                        }
                    }
                }
            }
            33 => {
                if let Slot::Live(h) = self.ctxs[ca] {
                    self.destroy(h, pts, |m| m.ctx(3, ca, 0))?;
                    if (0..NUMS).any(|q| matches!(self.nums[q], Num::Val(_, Some(g)) if g == h)) {
                        self.seen.insert("numbers outlive their recording");
                    }
                } else {
                    self.cxx.ctx(3, ca, 0);
                }
                self.ctxs[ca] = Slot::None;
            }
            34 => {
                if let Slot::Live(_) = self.ctxs[ca] {
                    self.cxx.ctx(9, ca, 0);
                    self.seen.insert("recording moved around");
                }
            }
            35 | 36 => {
                if let Slot::Live(h) = self.ctxs[ca] {
                    let x = self.pairs[h].twin.as_mut().unwrap().new_indep(0.0);
                    let op = if matches!(self.nums[b], Num::None) || s.f % 2 == 0 { 4 } else { 5 };
                    self.cxx.ctx(op, ca, b);
                    self.nums[b] = Num::Val(x, Some(h));
                }
            }
            _ => {
                if let (Slot::Live(h), Some((x, home))) = (self.ctxs[ca], vb) {
                    if home.map_or(true, |g| g == h) {
                        self.pairs[h].twin.as_mut().unwrap().set_dep(&x);
                        self.cxx.ctx(6 + (f & 1), ca, b);
                    }
                }
            }
        }
        Ok(())
    }

    /// All remaining numbers and recordings
    fn finish(&mut self, pts: &[Vec<f64>]) -> Res {
        for a in 0..CTXS {
            if let Slot::Live(h) = self.ctxs[a] {
                for b in 0..NUMS {
                    if let Num::Val(x, home) = self.nums[b] {
                        // a number whose recording is gone is used with a plain one
                        if home == Some(h) || home.map_or(true, |g| !self.alive(g)) {
                            let y = x * 1.0;
                            self.pairs[h].twin.as_mut().unwrap().set_dep(&y);
                            self.cxx.ctx(8, a, b);
                        }
                    }
                }
                self.compare(h, pts)?;
            }
        }
        Ok(())
    }
}

fn play(c: &ObjCase) -> Result<HashSet<&'static str>, String> {
    let mut sim = Sim {
        cxx: Cxx::new(NUMS, CTXS),
        nums: [Num::None; NUMS],
        ctxs: [Slot::None; CTXS],
        pairs: vec![],
        seen: HashSet::new(),
    };
    // a recording and some numbers to begin with
    let first = [
        Step { op: 28, f: 0, a: 0, b: 0, c: 0, x: 0.0 },
        Step { op: 35, f: 0, a: 0, b: 0, c: 0, x: 0.0 },
        Step { op: 35, f: 0, a: 0, b: 1, c: 0, x: 0.0 },
        Step { op: 1, f: 0, a: 2, b: 0, c: 0, x: 1.5 },
    ];
    for (k, s) in first.iter().chain(&c.steps).enumerate() {
        sim.step(s, &c.pts).map_err(|e| format!("step {} ({:?}): {}", k, s, e))?;
    }
    sim.finish(&c.pts)?;
    let cids: Vec<usize> = sim.pairs.iter().map(|p| p.cid).collect();
    let seen = sim.seen.clone();
    drop(sim);
    for c in cids {
        ensure!(AContext::from_cid(c).is_none(), "a recording is left when all C++ objects are gone");
    }
    Ok(seen)
}

/// Held shared while a history is played, exclusively while what it leaves is counted: tables shared
/// by all threads may be allocated by one and freed by another
static QUIET: RwLock<()> = RwLock::new(());

fn check_objects(c: &ObjCase, o: &mut Obs) -> Res {
    let counts = || (LIVE.with(|c| c.get()), unsafe { drv_live() });
    {
        let _shared = QUIET.read().unwrap_or_else(|e| e.into_inner());
        let seen = play(c)?;
        o.nontrivial = seen.len() >= 3;
        o.classes.extend(seen.iter());
        o.sample(|| format!("{:?}", c.steps));
        drop(seen);
        let before = counts();
        drop(play(c)?);
        if counts() == before {
            return Ok(());
        }
    }
    let _alone = QUIET.write().unwrap_or_else(|e| e.into_inner());
    // Repeated, because tables of the library may grow once
    let mut left = vec![];
    for _ in 0..5 {
        let before = counts();
        drop(play(c)?);
        let after = counts();
        let now = (after.0 - before.0, after.1 - before.1);
        if now.0 <= 0 && now.1 == 0 {
            return Ok(());
        }
        left.push(now);
    }
    Err(format!("every run of the history leaves objects behind: (Rust, C++) {:?}", left))
}

fn c24(run: &mut Run) {
    run.rule = "Random histories on six number slots and three recording slots (construct, copy, \
        move, assign, assign to itself, swap, containers, arithmetic, inputs, outputs, recordings \
        moved, replaced and destroyed before their numbers), run in lockstep with a Rust model \
        whose numbers are plain values; AddressSanitizer watches both languages, and the number of \
        objects alive must be the same before and after. Non-trivial: at least three kinds of \
        events among copies, moves, assignments and lifetime events.";
    run.sub("objects", (20_000, 500_000), obj_case, check_objects);
}

fn main() {
    supervise();
    install_panic_hook();
    start_watchdog();
    // the registry has room for all recordings of the threads
    drop((0..600).map(|_| AContext::new()).collect::<Vec<_>>());
    main_with(vec![("C23", c23), ("C24", c24)]);
}
