//! C15 chain driver, C19 function chains
use crate::anf::cmp_piece;
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::tapes::{dv, pools};
use advantage as adv;
use adv::drivers::*;
use adv::{AFloat, Function, FunctionChain};
use nalgebra::{DMatrix, DVector};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCase {
    raws: Vec<Raw>,
    dims: Vec<usize>,
    x: Vec<f64>,
    dx: Vec<f64>,
    cancel: u8,
    nest: Vec<u8>,
    budget: u8,
    pool: u8,
    bad: u8,
}

fn chain_case(links: std::ops::Range<usize>, exact: bool) -> BoxedStrategy<ChainCase> {
    let v = move || if exact { exact_vals(5) } else { vals(5) };
    let dim = || prop_oneof![12 => 1usize..5, 1 => Just(0usize)];
    links
        .prop_flat_map(move |k| {
            (
                pvec(raw(Just(0usize), 1..7, 5..6usize), k),
                pvec(dim(), k + 1),
                v(),
                v(),
                prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
                pvec(any::<u8>(), 0..10),
                any::<u8>(),
                0u8..3,
                any::<u8>(),
            )
        })
        .prop_map(|(raws, dims, x, dx, cancel, nest, budget, pool, bad)| ChainCase { raws, dims, x, dx, cancel, nest, budget, pool, bad })
        .boxed()
}

struct Built {
    links: Vec<Prog>,
    whole: Prog,
    x: Vec<f64>,
    dx: Vec<f64>,
}

fn build(c: &ChainCase, profile: Profile) -> Built {
    let n = c.dims[0];
    let x = fit(&c.x, n);
    let mut dx = fit(&c.dx, n);
    for i in 0..n {
        if c.cancel >> i & 1 == 1 {
            dx[i] = -x[i];
        }
    }
    let exact = profile == Profile::Exact;
    let u = if exact { 0.0 } else { U64 };
    let mut links: Vec<Prog> = vec![];
    let mut whole: Option<Prog> = None;
    let (mut y, mut dy) = (x.clone(), dx.clone());
    for (k, r) in c.raws.iter().enumerate() {
        let mut r = r.clone();
        r.n = y.len();
        let want = c.dims[k + 1];
        let outs = r.outs.clone();
        r.outs = (0..want).map(|i| outs[i % outs.len()].wrapping_add((i / outs.len()) as u16)).collect();
        let incs = if exact { vec![dy.clone()] } else { vec![] };
        let p = compile(&r, profile, &[y.clone()], &incs, false);
        let w = match &whole {
            None => p.clone(),
            Some(w) => w.then(&p),
        };
        let incs = if exact { vec![dx.clone()] } else { vec![] };
        if k > 0 && !valid(&w, profile, &[x.clone()], &incs) {
            break;
        }
        let d = if profile == Profile::Smooth {
            ref_dir(&p, &y, &dy, u)
        } else {
            ref_delta(&p, &y, &dy, u)
        }
        .expect("valid");
        let ny: Vec<f64> = p.outs.iter().map(|r| d[*r].v).collect();
        let ndy: Vec<f64> = p.outs.iter().map(|r| d[*r].g[0]).collect();
        y = ny;
        dy = ndy;
        links.push(p);
        whole = Some(w);
    }
    Built { links, whole: whole.unwrap(), x, dx }
}

/// Nest the links into sub-chains as told by `nest`
fn assemble(links: &[Prog], nest: &mut std::slice::Iter<u8>, depth: usize) -> FunctionChain {
    let mut chain: Option<FunctionChain> = None;
    let mut i = 0;
    while i < links.len() {
        let b = nest.next().copied().unwrap_or(0);
        let size = if depth > 3 { 1 } else { (1 + (b >> 2) as usize % 4).min(links.len() - i) };
        let group = &links[i..i + size];
        i += size;
        let boxed: Box<dyn Function> = if size == 1 && b & 1 == 0 {
            Box::new(PF(group[0].clone()))
        } else if size == links.len() {
            // the same links again: unwrap one level to make progress
            if size == 1 {
                Box::new(FunctionChain::new(PF(group[0].clone())))
            } else {
                let mut f = FunctionChain::new(PF(group[0].clone()));
                f.append(assemble(&group[1..], nest, depth + 1));
                Box::new(f)
            }
        } else {
            Box::new(assemble(group, nest, depth + 1))
        };
        chain = Some(match chain {
            None => FunctionChain::from_boxed(boxed),
            Some(mut ch) => {
                if b & 2 == 0 {
                    ch.append_boxed(boxed);
                } else {
                    ch.append(Wrapped(boxed));
                }
                ch
            }
        });
    }
    chain.unwrap()
}

/// A user-defined function that delegates everything, chain structure included
struct Wrapped(Box<dyn Function>);
impl Function for Wrapped {
    fn n(&self) -> usize {
        self.0.n()
    }
    fn m(&self) -> usize {
        self.0.m()
    }
    fn eval(&self, x: DVector<adv::ADouble>) -> DVector<adv::ADouble> {
        self.0.eval(x)
    }
    fn chain(&self) -> Option<&FunctionChain> {
        self.0.chain()
    }
}

fn describe(b: &Built) -> String {
    let l: Vec<String> = b.links.iter().map(|p| p.show()).collect();
    format!("[{}] at {:?} increment {:?}", l.join(" | "), b.x, b.dx)
}

fn check_chain_driver(c: &ChainCase, o: &mut Obs, profile: Profile) -> Res {
    let b = build(c, profile);
    let chain = assemble(&b.links, &mut c.nest.iter(), 0);
    check_driver_on(&b, &chain, c, o, profile)
}

fn check_driver_on(b: &Built, chain: &FunctionChain, c: &ChainCase, o: &mut Obs, profile: Profile) -> Res {
    let (x, dx) = (&b.x, &b.dx);
    let u = if profile == Profile::Exact { 0.0 } else { U64 };
    let piece = ref_piece(&b.whole, x, dx, &[], u).expect("valid");
    if piece.near {
        return o.discard("a switching variable is too close to zero");
    }
    let len = b.links.len();
    let nested = c.nest.iter().any(|b| b & 1 == 1 || (b >> 2) % 4 > 0);
    o.nontrivial = len >= 2 && b.whole.m() > 0 && b.whole.n > 0;
    o.class_if(len == 1, "single function");
    o.class_if(len >= 4, "4 or more functions");
    o.class_if(nested, "nested");
    o.class_if(piece.ties > 0, "ties");
    o.class_if(piece.ties > 255, "more than 255 ties");
    o.class_if(b.whole.num_abs() > 0, "switching");
    o.sample(|| describe(&b));
    let show = || describe(&b);
    let mut budgets = vec![None, Some(2 + c.budget as usize % (len + 3))];
    if len > 150 {
        // fewer checkpoints take too long
        budgets = vec![None, Some(4 + c.budget as usize), Some(len / 2 + c.bad as usize)];
    } else {
        budgets.push(Some(2));
    }
    if c.budget % 8 == 0 && len <= 150 {
        budgets.extend((2..len + 3).map(Some));
    }
    if c.budget % 16 == 1 {
        budgets.push(Some(1000));
    }
    let pool = &pools()[c.pool as usize];
    for k in budgets {
        let what = format!("chain driver with budget {:?}", k);
        let gj = total(&what, || pool.install(|| generalized_jacobian_chain(chain, dv(x), dv(dx), k)))
            .map_err(|e| format!("{}; {}", e, describe(&b)))?;
        ensure!(
            gj.multiplicity == piece.ties,
            "{}: multiplicity {}, want {}; {}", what, gj.multiplicity, piece.ties, show()
        );
        cmp_piece(&gj, &b.whole, &piece, &what, &show)?;
    }
    if c.budget % 32 == 3 {
        ensure!(
            caught(|| generalized_jacobian_chain(chain, dv(x), dv(dx), Some(c.bad as usize % 2))).is_none(),
            "a budget of {} is accepted", c.bad % 2
        );
    }
    Ok(())
}

pub fn c15(run: &mut Run) {
    run.rule = "Random chains of 1-7 functions (dyadic with exact ties, general, smooth), nested at \
        random; matrix, offset and multiplicity for the default and several explicit budgets are \
        compared with an independent evaluation of the composed program. Non-trivial: at least 2 \
        functions, an input and an output.";
    run.sub("exact", (30_000, 800_000), || chain_case(1..6, true), |c, o| check_chain_driver(c, o, Profile::Exact));
    run.sub("full", (25_000, 600_000), || chain_case(1..6, false), |c, o| check_chain_driver(c, o, Profile::Full));
    run.sub("smooth", (8_000, 200_000), || chain_case(1..8, false), |c, o| check_chain_driver(c, o, Profile::Smooth));
    run.sub("many ties", (250, 6_000), tie_chains, |c, o| check_chain_driver(c, o, Profile::Exact));
    run.sub("long", (300, 6_000), || (8usize..60, exact_vals(5), exact_vals(5), pvec(any::<u8>(), 0..40), any::<u8>(), 1usize..4, pvec(raw(Just(0usize), 1..4, 5..6usize), 1..4))
        .prop_map(|(k, x, dx, nest, budget, d, raws)| ChainCase {
            raws: (0..k).map(|i| raws[i % raws.len()].clone()).collect(),
            dims: vec![d; k + 1], x, dx, cancel: 0, nest, budget, pool: 0, bad: 0,
        }), |c, o| check_chain_driver(c, o, Profile::Full));
    run.sub("hundreds", (8, 300), big_chain, |c, o| {
        let b = build_big(c);
        check_driver_on(&b, &c.assemble(&b.links), &c.rest, o, Profile::Exact)
    });
}

/// Chains of several hundred simple functions
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigChain {
    kinds: Vec<u8>,
    len: usize,
    d: usize,
    /// every function in a chain around all before it
    deep: bool,
    rest: ChainCase,
}

impl BigChain {
    fn assemble(&self, links: &[Prog]) -> FunctionChain {
        if !self.deep {
            return assemble(links, &mut self.rest.nest.iter(), 0);
        }
        let mut chain = FunctionChain::new(PF(links[0].clone()));
        for l in &links[1..] {
            let mut outer = FunctionChain::new(chain);
            outer.append(PF(l.clone()));
            chain = outer;
        }
        chain
    }
}

fn big_chain() -> BoxedStrategy<BigChain> {
    let len = prop_oneof![2 => (60usize..150, any::<bool>()), 3 => (250usize..700, Just(false))];
    (pvec(any::<u8>(), 3..40), len, 1usize..4, exact_vals(3), exact_vals(3), pvec(any::<u8>(), 0..60), any::<(u8, u8, u8)>(), 0u8..3)
        .prop_map(|(kinds, (len, deep), d, x, dx, nest, (cancel, budget, bad), pool)| BigChain {
            kinds, len, d, deep,
            rest: ChainCase { raws: vec![], dims: vec![], x, dx, cancel, nest, budget, pool, bad },
        })
        .boxed()
}

fn build_big(c: &BigChain) -> Built {
    let d = c.d;
    let quarter = |v: &Vec<f64>| fit(v, d).iter().map(|v| (4.0 * v).round().clamp(-40.0, 40.0) / 4.0).collect::<Vec<f64>>();
    let x = quarter(&c.rest.x);
    let mut dx = quarter(&c.rest.dx);
    for i in 0..d {
        if c.rest.cancel >> i & 1 == 1 {
            dx[i] = -x[i];
        }
    }
    // none of them enlarges a difference, so that all values are small multiples of a power of two
    let links: Vec<Prog> = (0..c.len)
        .map(|k| {
            let b = c.kinds[(k * (1 + k / c.kinds.len())) % c.kinds.len()] as usize;
            let (i, j) = (b / 8 % d, b / 24 % d);
            let v = (b % 17) as f64 / 4.0 - 1.5;
            let mut outs: Vec<usize> = (0..d).collect();
            let mut ins = vec![];
            match b % 8 {
                0 | 1 => ins.extend([Ins::Un(Un::Abs, i), Ins::Bin(Bin::Sub, Opd::R(d), Opd::F(v), false)]),
                2 => ins.push(Ins::Bin(Bin::Sub, Opd::F(v), Opd::R(i), false)),
                3 => outs.rotate_left(j),
                4 => ins.extend([Ins::Bin(Bin::Mul, Opd::F(-1.0), Opd::R(j), false), Ins::Bin(Bin::Add, Opd::R(d), Opd::F(v), true)]),
                5 => ins.push(Ins::Bin(Bin::Max, Opd::R(i), Opd::C(-4.0 - v), false)),
                6 => ins.push(Ins::Bin(Bin::Min, Opd::C(4.0 + v), Opd::R(i), false)),
                _ => outs.swap(i, j),
            }
            if !ins.is_empty() {
                outs[i] = d + ins.len() - 1;
            }
            Prog { n: d, ins, outs }
        })
        .collect();
    let mut whole = links[0].clone();
    for l in &links[1..] {
        whole = whole.then(l);
    }
    Built { links, whole, x, dx }
}

/// Chains of absolute values, maxima and minima that all tie: hundreds of zero switching variables
fn tie_chains() -> BoxedStrategy<ChainCase> {
    (4usize..60, 1usize..6, pvec(raw(Just(0usize), 10..24, 5..6usize), 1..4), pvec(any::<u8>(), 0..30), any::<u8>(), 0u8..3, exact_vals(3), any::<bool>())
        .prop_map(|(k, d, mut raws, nest, budget, pool, x, zero)| {
            for r in raws.iter_mut() {
                for (j, i) in r.ins.iter_mut().enumerate() {
                    // abs, max, min of registers
                    if j % 4 != 3 {
                        i.op = [8, 11, 12, 8][i.op as usize % 4];
                        i.k -= i.k % 5;
                    }
                }
            }
            let x = if zero { vec![0.0] } else { x };
            ChainCase {
                raws: (0..k).map(|i| raws[i % raws.len()].clone()).collect(),
                dims: vec![d; k + 1], dx: if zero { vec![0.0] } else { x.clone() }, x, cancel: 255, nest, budget, pool, bad: 0,
            }
        })
        .boxed()
}

fn check_chain(c: &ChainCase, o: &mut Obs) -> Res {
    let b = build(c, Profile::Full);
    check_chain_on(&b, &|| assemble(&b.links, &mut c.nest.iter(), 0), c, o)
}

fn check_chain_on(b: &Built, make: &dyn Fn() -> FunctionChain, c: &ChainCase, o: &mut Obs) -> Res {
    let (x, w) = (&b.x, &b.whole);
    let (n, m) = (w.n, w.m());
    let len = b.links.len();
    o.nontrivial = len >= 2;
    o.class_if(len == 1, "single function");
    o.class_if(c.nest.iter().any(|b| b & 1 == 1 || (b >> 2) % 4 > 0), "nested");
    o.sample(|| describe(&b));
    let chain = total("building the chain", make)?;
    ensure!(chain.n() == n && chain.m() == m, "chain is {}->{}, want {}->{}", chain.n(), chain.m(), n, m);
    ensure!(chain.len() == len, "len {} want {}", chain.len(), len);
    ensure!(chain.iter().count() == len, "iterates over {} functions, want {}", chain.iter().count(), len);
    ensure!(chain.chain().is_some(), "a chain does not report its structure");
    // elementary functions in order
    let mut y = x.clone();
    for (k, p) in b.links.iter().enumerate() {
        let want = ref_values(p, &y, U64).expect("valid");
        let ny: Vec<f64> = p.outs.iter().map(|r| want[*r].v).collect();
        for (how, f) in [("nth", chain.nth(k)), ("iter", chain.iter().nth(k).unwrap())] {
            ensure!(f.n() == p.n && f.m() == p.m(), "{}({}) is {}->{}; {}", how, k, f.n(), f.m(), describe(&b));
            ensure!(f.chain().is_none(), "{}({}) is a chain itself", how, k);
            let g = total("eval_float of a link", || f.eval_float(dv(&y)))?;
            for (i, r) in p.outs.iter().enumerate() {
                ensure!(
                    close(g[i], want[*r].v, want[*r].ev),
                    "{}({}) is another function: output {} is {:?} want {:?}; {}", how, k, i, g[i], want[*r].v, describe(&b)
                );
            }
        }
        y = ny;
    }
    ensure!(caught(|| chain.nth(len).n()).is_none(), "nth({}) of {} functions", len, len);
    // evaluation
    let want = ref_delta(w, x, &b.dx, U64).expect("valid");
    let g = total("eval_float", || chain.eval_float(dv(x)))?;
    let a = total("eval", || {
        chain.eval(DVector::from_vec((0..n).map(|i| AFloat::new(x[i], b.dx[i])).collect()))
    })?;
    let mut tape = total("tape", || chain.tape(&dv(x)))?;
    ensure!(tape.num_indeps() == n && tape.num_deps() == m && tape.num_abs() == w.num_abs(), "tape dimensions; {}", describe(&b));
    ensure!(g.len() == m && a.len() == m, "evaluation gives {} values, want {}", g.len(), m);
    if c.budget & 1 == 1 {
        tape.zero_order(&dv(&vec![0.25; n]));
        tape.zero_order(&dv(x));
    }
    let t = total("forward sweep", || tape.first_order_forward(&dv(&b.dx)))?;
    for i in 0..m {
        let q = &want[w.outs[i]];
        for (how, v) in [("eval_float", g[i]), ("eval", a[i].value()), ("tape", tape.y()[i])] {
            ensure!(close(v, q.v, q.ev), "{}: output {} is {:?} want {:?}; {}", how, i, v, q.v, describe(&b));
        }
        for (how, v) in [("eval", a[i].dvalue()), ("tape", t[i])] {
            ensure!(close(v, q.g[0], q.eg[0]), "{}: derivative {} is {:?} want {:?}; {}", how, i, v, q.g[0], describe(&b));
        }
    }
    if w.num_abs() == 0 {
        let jac = ref_grad(w, x, U64).expect("valid");
        let (f, r): (DMatrix<f64>, DMatrix<f64>) = total("Jacobians", || (jacobian_forward(&chain, &dv(x)), jacobian_reverse(&*tape)))?;
        o.class("smooth: Jacobians compared");
        for (how, j) in [("forward", &f), ("reverse", &r)] {
            for i in 0..m {
                for k in 0..n {
                    let q = &jac[w.outs[i]];
                    ensure!(close(j[(i, k)], q.g[k], q.eg[k]), "{} Jacobian ({}, {}) is {:?} want {:?}; {}", how, i, k, j[(i, k)], q.g[k], describe(&b));
                }
            }
        }
    }
    // a function that does not fit
    let mut chain = chain;
    let wrong = Prog { n: m + 1 + c.bad as usize % 3, ins: vec![], outs: vec![0] };
    ensure!(caught(|| chain.append(PF(wrong.clone()))).is_none(), "append accepted {} inputs after {} outputs", wrong.n, m);
    if m > 0 {
        let wrong = Prog { n: m - 1, ins: vec![Ins::Const(1.0)], outs: vec![0] };
        ensure!(caught(|| chain.append_boxed(Box::new(PF(wrong.clone())))).is_none(), "append_boxed accepted {} inputs after {} outputs", wrong.n, m);
    }
    // the same as a chain, a nested chain, a wrapper around one
    let len2 = 1 + c.bad as usize / 3 % 3;
    let wrong_chain = |n: usize| {
        let first = Prog { n, ins: vec![Ins::Const(1.0)], outs: vec![n; m.max(1)] };
        let mut f = FunctionChain::new(PF(first));
        for _ in 1..len2 {
            f.append(PF(Prog { n: m.max(1), ins: vec![], outs: (0..m.max(1)).collect() }));
        }
        f
    };
    for n2 in [m + 1 + c.bad as usize % 3, m.wrapping_sub(1), 0] {
        if n2 == m || n2 > 100 {
            continue;
        }
        let what = format!("append accepted a chain with {} inputs after {} outputs", n2, m);
        match c.bad % 4 {
            0 => ensure!(caught(|| chain.append(wrong_chain(n2))).is_none(), "{}", what),
            1 => ensure!(caught(|| chain.append_boxed(Box::new(wrong_chain(n2)))).is_none(), "{}", what),
            2 => ensure!(caught(|| chain.append(Wrapped(Box::new(wrong_chain(n2))))).is_none(), "{}", what),
            _ => ensure!(caught(|| chain.append(FunctionChain::new(wrong_chain(n2)))).is_none(), "{}", what),
        }
    }
    ensure!(chain.len() == len && chain.m() == m, "a refused function was appended");
    // append one that fits
    let id = Prog { n: m, ins: vec![], outs: (0..m).rev().collect() };
    total("append", || chain.append(PF(id.clone())))?;
    ensure!(chain.len() == len + 1 && chain.n() == n && chain.m() == m, "after append");
    let g2 = total("eval_float", || chain.eval_float(dv(x)))?;
    for i in 0..m {
        ensure!(g2[i] == g[m - 1 - i], "after append: output {}", i);
    }
    Ok(())
}

pub fn c19(run: &mut Run) {
    run.rule = "Random chains of 1-7 random functions nested at random (append, append_boxed, \
        from_boxed, user wrappers that delegate the chain structure): dimensions, length, nth, \
        iteration, evaluation, tape, derivatives and Jacobians are compared with the composed \
        program; unfitting functions must be refused. Non-trivial: at least 2 functions.";
    run.sub("chains", (25_000, 700_000), || chain_case(1..8, false), check_chain);
    run.sub("hundreds", (24, 600), big_chain, |c, o| {
        let b = build_big(c);
        check_chain_on(&b, &|| c.assemble(&b.links), &c.rest, o)
    });
}
