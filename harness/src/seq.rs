//! C16-C18: walking a sequence in reverse with limited memory
use crate::ensure;
use crate::fw::*;
use advantage as adv;
use adv::drivers::reverse_sequence;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase {
    pub n: usize,
    pub c: usize,
    pub x0: u64,
}

#[derive(Default)]
struct State {
    live: std::collections::HashMap<usize, usize>,
    max_live: usize,
    forward: u64,
    identity: Vec<usize>,
    reverse: Vec<usize>,
    errors: Vec<String>,
    limit: u64,
}

type Shared = Rc<RefCell<State>>;

struct Tok {
    idx: usize,
    val: u64,
    st: Shared,
}

impl Tok {
    fn new(idx: usize, val: u64, st: &Shared) -> Tok {
        *st.borrow_mut().live.entry(idx).or_default() += 1;
        Tok { idx, val, st: st.clone() }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.idx, self.val, &self.st)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let mut s = self.st.borrow_mut();
        let e = s.live.get_mut(&self.idx).unwrap();
        *e -= 1;
        if *e == 0 {
            s.live.remove(&self.idx);
        }
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "#{}", self.idx)
    }
}

fn step(v: u64) -> u64 {
    (v ^ (v >> 27)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17).wrapping_add(1)
}
/// not commutative, not associative
fn fold(v: u64, r: u64) -> u64 {
    (v.rotate_left(9) ^ r.wrapping_mul(0xD1B54A32D192ED03)).wrapping_add(v >> 3)
}

/// binomial coefficient, saturating
fn binom(n: u128, k: u128) -> u128 {
    let k = k.min(n - k);
    let mut r: u128 = 1;
    for i in 0..k {
        r = match r.checked_mul(n - i) {
            Some(v) => v / (i + 1),
            None => return u128::MAX,
        };
        if r > 1 << 100 {
            return u128::MAX;
        }
    }
    r
}
/// longest sequence reversible with c stored states and t repetitions
fn reach(c: u128, t: u128) -> u128 {
    binom(c + t, c.min(t))
}
/// minimal number of forward steps for l elements when c states can be stored besides the one
/// being worked on
pub fn optimum(l: u64, c: u64) -> u64 {
    let (l, c) = (l as u128, c as u128);
    let mut t: u128 = 0;
    while reach(c, t) < l {
        t += 1;
    }
    if t == 0 {
        return 0;
    }
    (t * l - reach(c + 1, t - 1)) as u64
}

struct Out {
    result: u64,
    want: u64,
    st: Shared,
}

fn walk(c: &SeqCase) -> Result<Out, String> {
    walk_with(c, &Rc::new(RefCell::new(State::default())), &|_, _| {})
}

/// `hook` is called in every callback with its number (0 forward, 1 reverse, 2 terminal) and the
/// element's index
fn walk_with(c: &SeqCase, st: &Shared, hook: &dyn Fn(u8, usize)) -> Result<Out, String> {
    let st = st.clone();
    let mut vals = vec![c.x0];
    for i in 0..c.n {
        vals.push(step(vals[i]));
    }
    // far above any sensible schedule: a walk that does not end is stopped
    st.borrow_mut().limit = 1000 + 20 * optimum(c.n as u64 + 1, c.c as u64 - 1) + c.n as u64;
    let seen = |t: &Tok| {
        let mut s = st.borrow_mut();
        s.max_live = s.max_live.max(s.live.len());
        if t.idx > c.n || vals[t.idx] != t.val {
            let e = format!("element {} has the wrong state", t.idx);
            s.errors.push(e);
        }
    };
    let result = total("reverse_sequence", || {
        reverse_sequence(
            Tok::new(0, c.x0, &st),
            c.n,
            c.c,
            |t: Tok| {
                seen(&t);
                {
                    let mut s = st.borrow_mut();
                    s.forward += 1;
                    if s.forward > s.limit {
                        drop(s);
                        panic!("more than 20 times the minimal number of forward steps");
                    }
                }
                hook(0, t.idx);
                Tok::new(t.idx + 1, step(t.val), &st)
            },
            |t: Tok, r: u64| {
                seen(&t);
                hook(1, t.idx);
                st.borrow_mut().reverse.push(t.idx);
                fold(t.val, r)
            },
            |t: Tok| {
                seen(&t);
                hook(2, t.idx);
                st.borrow_mut().identity.push(t.idx);
                t.val ^ 0x5555
            },
        )
    })?;
    let mut want = vals[c.n] ^ 0x5555;
    for i in (0..c.n).rev() {
        want = fold(vals[i], want);
    }
    Ok(Out { result, want, st })
}

fn general(c: &SeqCase, o: &mut Obs) -> Result<Out, String> {
    o.nontrivial = c.n + 1 > c.c;
    o.class_if(c.n + 1 > c.c, "does not fit: steps are repeated");
    o.class_if(c.n + 1 <= c.c, "everything fits");
    o.class_if(c.n == 0, "no steps");
    o.sample(|| format!("{} steps, {} checkpoints", c.n, c.c));
    walk(c)
}

fn p16(c: &SeqCase, w: &Out) -> Res {
    let s = w.st.borrow();
    if let Some(e) = s.errors.first() {
        return Err(e.clone());
    }
    ensure!(w.result == w.want, "wrong result for n = {}, c = {}", c.n, c.c);
    ensure!(s.identity == vec![c.n], "terminal callback called for {:?}, want [{}]", s.identity, c.n);
    ensure!(
        s.reverse.len() == c.n && s.reverse.iter().enumerate().all(|(k, i)| *i == c.n - 1 - k),
        "reverse callback called for {:?}..., want {} down to 0", &s.reverse[..s.reverse.len().min(20)], c.n as i64 - 1
    );
    Ok(())
}

fn p17(c: &SeqCase, w: &Out) -> Res {
    let s = w.st.borrow();
    ensure!(s.max_live <= c.c, "{} elements alive with a budget of {} (n = {})", s.max_live, c.c, c.n);
    ensure!(s.live.is_empty(), "{:?} alive after the walk", s.live.keys());
    Ok(())
}

fn p18(c: &SeqCase, w: &Out) -> Res {
    let s = w.st.borrow();
    let min = optimum(c.n as u64 + 1, c.c as u64 - 1);
    ensure!(s.forward == min, "{} forward steps, minimum is {} (n = {}, c = {})", s.forward, min, c.n, c.c);
    if c.n + 1 <= c.c {
        ensure!(s.forward == c.n as u64, "steps repeated although everything fits");
    }
    Ok(())
}

fn small() -> BoxedStrategy<SeqCase> {
    (0usize..200, 2usize..20, any::<u64>()).prop_map(|(n, c, x0)| SeqCase { n, c, x0 }).boxed()
}
fn large() -> BoxedStrategy<SeqCase> {
    prop_oneof![
        3 => (200usize..1500, 3usize..80),
        1 => (0usize..1500, 80usize..1600),
        1 => (0usize..400, Just(2usize)),
        1 => (0usize..60, prop::sample::select(vec![1usize << 20, 1 << 40, usize::MAX / 2, usize::MAX])),
        1 => (3usize..9, 1usize..8).prop_map(|(c, t)| {
            // at the edges where the repetition number changes
            let l = reach(c as u128 - 1, t as u128).min(4000) as usize;
            (l, c)
        }),
        1 => (3usize..9, 1usize..8).prop_map(|(c, t)| {
            let l = reach(c as u128 - 1, t as u128).min(4000) as usize;
            (l - 1, c)
        }),
    ]
    .prop_flat_map(|(n, c)| (Just(n), Just(c), any::<u64>()))
    .prop_map(|(n, c, x0)| SeqCase { n, c, x0 })
    .boxed()
}

/// beyond what 16 bits count
fn long() -> BoxedStrategy<SeqCase> {
    prop_oneof![
        3 => (65_000usize..140_000, 20usize..200),
        1 => (65_530usize..65_540, 30usize..100),
        1 => (65_000usize..80_000, 60_000usize..90_000),
        1 => (65_000usize..80_000, Just(usize::MAX)),
    ]
    .prop_flat_map(|(n, c)| (Just(n), Just(c), any::<u64>()))
    .prop_map(|(n, c, x0)| SeqCase { n, c, x0 })
    .boxed()
}

/// Walks inside callbacks of a walk, walks ended by a panic of a callback
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WalkCase {
    pub outer: SeqCase,
    pub inner: SeqCase,
    /// the inner walk runs in this callback...
    pub kind: u8,
    /// ...at this element
    pub at: usize,
    /// the inner walk, and later the outer one, is first left by a panic in this callback
    pub stop: Option<(u8, usize)>,
}

fn walks() -> BoxedStrategy<WalkCase> {
    let one = || (0usize..60, 2usize..8, any::<u64>()).prop_map(|(n, c, x0)| SeqCase { n, c, x0 });
    (one(), one(), 0u8..3, 0usize..60, proptest::option::of((0u8..3, 0usize..60)))
        .prop_map(|(outer, inner, kind, at, stop)| WalkCase { outer, inner, kind, at, stop })
        .boxed()
}

fn stopped(c: &SeqCase, stop: (u8, usize)) -> Res {
    let st: Shared = Rc::new(RefCell::new(State::default()));
    let done = std::cell::Cell::new(false);
    let r = walk_with(c, &st, &|kind, idx| {
        if kind == stop.0 && idx == stop.1 {
            done.set(true);
            panic!("left by a callback");
        }
    });
    ensure!(!done.get() || r.is_err(), "the panic of a callback was lost");
    if !done.get() {
        r?;
    }
    let live: Vec<usize> = st.borrow().live.keys().cloned().collect();
    ensure!(live.is_empty(), "{:?} alive after a walk left by a panic", live);
    Ok(())
}

fn check_walks(c: &WalkCase, o: &mut Obs, p: fn(&SeqCase, &Out) -> Res) -> Res {
    o.nontrivial = c.outer.n + 1 > c.outer.c && c.inner.n + 1 > c.inner.c;
    o.class(["inner walk in forward", "inner walk in reverse", "inner walk at the end"][c.kind as usize % 3]);
    o.class_if(c.stop.is_some(), "a walk left by a panic before");
    o.sample(|| format!("{:?}", c));
    let first: RefCell<Res> = RefCell::new(Ok(()));
    let w = walk_with(&c.outer, &Rc::new(RefCell::new(State::default())), &|kind, idx| {
        if kind == c.kind && idx == c.at % (c.outer.n + 1) && first.borrow().is_ok() {
            let r = c
                .stop
                .map_or(Ok(()), |s| stopped(&c.inner, s))
                .and_then(|_| walk(&c.inner))
                .and_then(|w| p(&c.inner, &w));
            *first.borrow_mut() = r.map_err(|e| format!("inner walk: {}", e));
        }
    })?;
    first.into_inner()?;
    p(&c.outer, &w)?;
    if let Some(s) = c.stop {
        stopped(&c.outer, s)?;
        p(&c.inner, &walk(&c.inner)?)?;
    }
    Ok(())
}

fn all(run: &mut Run, p: fn(&SeqCase, &Out) -> Res) {
    let check = move |c: &SeqCase, o: &mut Obs| p(c, &general(c, o)?);
    run.assumptions.push("elements are compared through a 64-bit state; up to 140000 steps");
    let (nmax, cmax) = if run.thorough { (500usize, 80usize) } else { (150, 30) };
    let grid = (2..=cmax).flat_map(|c| (0..=nmax).map(move |n| SeqCase { n, c, x0: 12345 })).collect();
    run.list("grid", grid, check);
    run.extra.insert(
        "grid",
        serde_json::json!({"lengths": format!("0..={}", nmax), "checkpoints": format!("2..={}", cmax), "complete": true}),
    );
    run.sub("small", (20_000, 300_000), small, check);
    run.sub("large", (3_000, 60_000), large, check);
    run.sub("long", (16, 400), long, check);
    run.sub("nested", (4_000, 60_000), walks, move |c: &WalkCase, o: &mut Obs| check_walks(c, o, p));
}

const RULE: &str = "Walks over sequences of 0-4000 (some up to 140000) steps with 2 to very many checkpoints: a \
    complete grid of small lengths and budgets, random larger ones, the lengths where the \
    repetition number changes, and budgets beyond the length; walks started in a callback of \
    another walk, and after walks left by a panic of a callback. Non-trivial: the sequence does not \
    fit the budget.";

pub fn c16(run: &mut Run) {
    run.rule = RULE;
    all(run, p16);
    run.sub("refused", (200, 2_000), || (0usize..50, 0usize..2, any::<u64>()).prop_map(|(n, c, x0)| SeqCase { n, c, x0 }), |c, o| {
        o.nontrivial = true;
        let r = caught(|| reverse_sequence(c.x0, c.n, c.c, step, fold, |x| x));
        ensure!(r.is_none(), "a budget of {} checkpoints is accepted", c.c);
        Ok(())
    });
}
pub fn c17(run: &mut Run) {
    run.rule = RULE;
    all(run, p17);
}
/// The closed form against dynamic programming: advance j steps and store, reverse the rest with
/// one state less, then the first j
fn oracle_is_right() -> bool {
    let (l, c) = (120usize, 20usize);
    let mut p = vec![vec![0u64; c + 1]; l + 1];
    for n in 2..=l {
        p[n][1] = (n * (n - 1) / 2) as u64;
        for k in 2..=c {
            p[n][k] = (1..n).map(|j| j as u64 + p[n - j][k - 1] + p[j][k]).min().unwrap();
        }
    }
    (1..=l).all(|n| (1..=c).all(|k| optimum(n as u64, k as u64) == p[n][k]))
}

pub fn c18(run: &mut Run) {
    if !oracle_is_right() {
        eprintln!("the closed form of the optimum is wrong");
        std::process::exit(2);
    }
    run.rule = RULE;
    all(run, p18);
}
