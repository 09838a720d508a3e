//! C21, C22: several recordings, their lifetime, and threads
use crate::ensure;
use crate::fw::*;
use crate::ir::*;
use crate::tapes::{any_ins, dv, record, well_formed};
use advantage as adv;
use adv::drivers::{abs_normal, jacobian_forward, jacobian_reverse};
use adv::{AContext, AFloat, Function, OpCode, Operation, Tape};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Barrier, Mutex};

// ---------------------------------------------------------------------------------------------
// C21
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
    New,
    Dup(u16),
    Drop(u16),
    Input(u16, f64, u8),
    Redeclare(u16, u16),
    Plain(f64, f64),
    Step(u8, u16, u16, u8, f64),
    Mix(u8, u16, u16),
    Output(u16, u16),
    /// several inputs at once
    InputVec(u16, f64, u8),
    /// several outputs at once
    OutputSlice(u16, Vec<u16>),
    /// entered by hand
    Hand(u16, u8, u16, u16, f64),
    /// an input with its value and seed written through the accessors
    Written(u16, f64, f64),
    /// change of precision, to the same one
    Cast(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    evs: Vec<Ev>,
    /// at the end: declare a foreign variable as an output
    foreign: (u16, u16),
}

fn history() -> BoxedStrategy<History> {
    let ev = prop_oneof![
        3 => Just(Ev::New),
        1 => any::<u16>().prop_map(Ev::Dup),
        2 => any::<u16>().prop_map(Ev::Drop),
        5 => (any::<u16>(), val(), any::<u8>()).prop_map(|(c, v, k)| Ev::Input(c, v, k)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(c, v)| Ev::Redeclare(c, v)),
        1 => (val(), val()).prop_map(|(a, b)| Ev::Plain(a, b)),
        14 => (any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>(), val())
            .prop_map(|(o, a, b, k, c)| Ev::Step(o, a, b, k, c)),
        2 => (any::<u8>(), any::<u16>(), any::<u16>()).prop_map(|(o, a, b)| Ev::Mix(o, a, b)),
        4 => (any::<u16>(), any::<u16>()).prop_map(|(c, v)| Ev::Output(c, v)),
        2 => (any::<u16>(), val(), 0u8..5).prop_map(|(c, v, k)| Ev::InputVec(c, v, k)),
        1 => (any::<u16>(), pvec(any::<u16>(), 0..5)).prop_map(|(c, v)| Ev::OutputSlice(c, v)),
        2 => (any::<u16>(), any::<u8>(), any::<u16>(), any::<u16>(), val())
            .prop_map(|(c, o, a, b, v)| Ev::Hand(c, o, a, b, v)),
        1 => (any::<u16>(), val(), val()).prop_map(|(c, v, d)| Ev::Written(c, v, d)),
        2 => any::<u16>().prop_map(Ev::Cast),
    ];
    (pvec(ev, 4..45), any::<(u16, u16)>())
        .prop_map(|(mut evs, foreign)| {
            evs.insert(0, Ev::New);
            evs.insert(1, Ev::Input(0, 1.5, 0));
            evs.insert(2, Ev::New);
            evs.insert(3, Ev::Input(1, 0.5, 0));
            History { evs, foreign }
        })
        .boxed()
}

/// What happened to one recording, over registers of its own
#[derive(Clone, Debug)]
enum Own {
    Input(f64, f64, u8),
    Plain(f64, f64),
    Step(Ins),
    Output(usize),
    InputVec(f64, usize),
    OutputSlice(Vec<usize>),
    Hand(OpCode, f64, Option<usize>, Option<usize>, bool),
}

struct Rec {
    handles: Vec<AContext>,
    cid: usize,
    log: Vec<Own>,
    nregs: usize,
    steps: usize,
}

#[derive(Clone, Copy)]
struct Var {
    x: AFloat<f64>,
    shadow: AFloat<f64>,
    /// recording it belongs to, and its register there
    home: Option<(usize, usize)>,
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

type Content = (Vec<usize>, Vec<usize>, Vec<Operation>, Vec<f64>);

fn content(c: &AContext) -> Content {
    (c.indeps(), c.deps(), c.operations(), c.values())
}

fn differ(a: &Content, b: &Content) -> Option<String> {
    if a.0 != b.0 {
        return Some(format!("inputs {:?} / {:?}", a.0, b.0));
    }
    if a.1 != b.1 {
        return Some(format!("outputs {:?} / {:?}", a.1, b.1));
    }
    if a.2 != b.2 {
        return Some(format!("operations {:?} / {:?}", a.2, b.2));
    }
    if a.3.len() != b.3.len() || a.3.iter().zip(&b.3).any(|(x, y)| !same(*x, *y)) {
        return Some(format!("values {:?} / {:?}", a.3, b.3));
    }
    None
}

fn declare(ctx: &mut AContext, v: f64, d: f64, k: u8) -> AFloat<f64> {
    match k % 3 {
        0 => ctx.new_indep(v),
        1 => ctx.new_indep_vec(1, v)[0],
        _ => {
            let mut x = AFloat::new(v, d);
            ctx.set_indep(&mut x);
            x
        }
    }
}

/// The same history of one recording, with nothing else around
fn alone(log: &[Own]) -> Content {
    let mut ctx = AContext::new();
    let mut regs: Vec<AFloat<f64>> = vec![];
    for e in log {
        match e {
            Own::Input(v, d, k) => regs.push(declare(&mut ctx, *v, *d, *k)),
            Own::Plain(v, d) => regs.push(AFloat::new(*v, *d)),
            Own::Step(i) => {
                let r = step_af(i, &regs);
                regs.push(r)
            }
            Own::Output(r) => ctx.set_dep(&regs[*r]),
            // one by one
            Own::InputVec(v, n) => {
                for _ in 0..*n {
                    regs.push(ctx.new_indep(*v));
                }
            }
            Own::OutputSlice(r) => {
                for r in r {
                    ctx.set_dep(&regs[*r]);
                }
            }
            Own::Hand(op, v, a, b, single) => {
                hand(&mut ctx, *op, *v, *a, *b, *single);
            }
        }
    }
    content(&ctx)
}

fn hand(c: &mut AContext, op: OpCode, v: f64, a: Option<usize>, b: Option<usize>, single: bool) -> usize {
    if single {
        c.record(op, v as f32, a, b)
    } else {
        c.record(op, v, a, b)
    }
}

fn operands(i: &Ins) -> Vec<usize> {
    match *i {
        Ins::Un(_, a) => vec![a],
        Ins::Bin(_, x, y, _) => {
            [x, y].iter().filter_map(|o| if let Opd::R(r) = o { Some(*r) } else { None }).collect()
        }
        Ins::MulAdd(a, b, c) => vec![a, b, c],
        Ins::Const(_) => vec![],
    }
}

fn renamed(i: &Ins, f: &mut dyn FnMut(usize) -> usize) -> Ins {
    let mut o = |x: Opd| if let Opd::R(r) = x { Opd::R(f(r)) } else { x };
    match *i {
        Ins::Bin(b, x, y, s) => Ins::Bin(b, o(x), o(y), s),
        Ins::Un(u, a) => Ins::Un(u, f(a)),
        Ins::MulAdd(a, b, c) => Ins::MulAdd(f(a), f(b), f(c)),
        Ins::Const(c) => Ins::Const(c),
    }
}

fn check_registry(recs: &[Rec]) -> Res {
    for r in recs {
        let found = AContext::from_cid(r.cid);
        if r.handles.is_empty() {
            ensure!(found.is_none(), "recording {} is found although its last handle is gone", r.cid);
        } else {
            match found {
                None => return Err(format!("live recording {} is not found", r.cid)),
                Some(f) => ensure!(f.cid() == r.cid, "lookup of {} gives {}", r.cid, f.cid()),
            }
            ensure!(r.handles.iter().all(|h| h.cid() == r.cid), "handles of one recording with different ids");
        }
    }
    Ok(())
}

fn check_history(h: &History, o: &mut Obs) -> Res {
    let mut recs: Vec<Rec> = vec![];
    let mut vars: Vec<Var> = vec![];
    let mut max_live = 0;
    let mut outlived = false;
    let mut mixed = 0;
    let mut by_hand = false;
    let mut foreign_outputs = 0;
    for (k, ev) in h.evs.iter().enumerate() {
        let at = |m: String| format!("step {} ({:?}): {}", k, ev, m);
        let live: Vec<usize> = (0..recs.len()).filter(|i| !recs[*i].handles.is_empty()).collect();
        max_live = max_live.max(live.len());
        let lens = |recs: &[Rec]| -> Vec<Option<[usize; 4]>> {
            recs.iter()
                .map(|r| {
                    r.handles.first().map(|c| {
                        let x = content(c);
                        [x.0.len(), x.1.len(), x.2.len(), x.3.len()]
                    })
                })
                .collect()
        };
        let before = lens(&recs);
        // the recording this step may change
        let mut touched: Option<usize> = None;
        let home_of = |recs: &[Rec], v: &Var| v.home.filter(|(c, _)| !recs[*c].handles.is_empty());
        match ev {
            Ev::New => {
                if live.len() < 5 {
                    let c = total("AContext::new", AContext::new)?;
                    let cid = c.cid();
                    ensure!(recs.iter().all(|r| r.cid != cid), "{}", at(format!("id {} used again", cid)));
                    ensure!(c.operations().is_empty() && c.values().is_empty() && c.indeps().is_empty() && c.deps().is_empty(),
                        "{}", at("a new recording is not empty".into()));
                    recs.push(Rec { handles: vec![c], cid, log: vec![], nregs: 0, steps: 0 });
                }
            }
            Ev::Dup(i) => {
                if !live.is_empty() {
                    let i = live[*i as usize % live.len()];
                    match AContext::from_cid(recs[i].cid) {
                        Some(c) => recs[i].handles.push(c),
                        None => return Err(at("live recording is not found".into())),
                    }
                }
            }
            Ev::Drop(i) => {
                if !live.is_empty() {
                    let j = *i as usize / 8;
                    let i = live[*i as usize % live.len()];
                    let l = recs[i].handles.len();
                    if l == 1 {
                        // compare before it is gone
                        let got = content(&recs[i].handles[0]);
                        if let Some(d) = differ(&got, &alone(&recs[i].log)) {
                            return Err(at(format!("recording {} differs from the same recording alone: {}", i, d)));
                        }
                        outlived |= vars.iter().any(|v| v.home.map_or(false, |h| h.0 == i));
                    }
                    let h = recs[i].handles.swap_remove(j % l);
                    total("drop", move || drop(h))?;
                }
            }
            Ev::Input(i, v, kind) => {
                if !live.is_empty() {
                    let j = *i as usize / 8;
                    let i = live[*i as usize % live.len()];
                    touched = Some(i);
                    let l = recs[i].handles.len();
                    let x = total("declaring an input", || declare(&mut recs[i].handles[j % l], *v, 1.0, *kind))?;
                    let d = if *kind % 3 == 2 { 1.0 } else { 0.0 };
                    ensure!(x.value() == *v && x.dvalue() == d, "{}", at(format!("input is {:?}", x)));
                    recs[i].log.push(Own::Input(*v, 1.0, *kind));
                    vars.push(Var { x, shadow: AFloat::new(*v, d), home: Some((i, recs[i].nregs)) });
                    recs[i].nregs += 1;
                }
            }
            Ev::InputVec(i, v, n) => {
                if !live.is_empty() {
                    let i = live[*i as usize % live.len()];
                    touched = Some(i);
                    let n = *n as usize;
                    let xs = total("declaring inputs", || recs[i].handles[0].new_indep_vec(n, *v))?;
                    ensure!(xs.len() == n, "{}", at(format!("{} inputs", xs.len())));
                    recs[i].log.push(Own::InputVec(*v, n));
                    for x in xs {
                        ensure!(x.value() == *v && x.dvalue() == 0.0, "{}", at(format!("input is {:?}", x)));
                        vars.push(Var { x, shadow: AFloat::new(*v, 0.0), home: Some((i, recs[i].nregs)) });
                        recs[i].nregs += 1;
                    }
                }
            }
            Ev::Written(i, v, d) => {
                if !live.is_empty() {
                    let i = live[*i as usize % live.len()];
                    touched = Some(i);
                    let mut x = AFloat::<f64>::new(0.25, 0.75);
                    *x.value_mut() = *v;
                    total("declaring an input", || recs[i].handles[0].set_indep(&mut x))?;
                    *x.dvalue_mut() = *d;
                    recs[i].log.push(Own::Input(*v, *d, 2));
                    vars.push(Var { x, shadow: AFloat::new(*v, *d), home: Some((i, recs[i].nregs)) });
                    recs[i].nregs += 1;
                }
            }
            Ev::Hand(i, op, a, b, v) => {
                if !live.is_empty() {
                    let i = live[*i as usize % live.len()];
                    let c = &mut recs[i].handles[0];
                    let before = content(c);
                    let known: Vec<usize> = before.0.iter().copied().chain(before.2.iter().map(|o| o.vid)).collect();
                    let (a, b) = match known.len() {
                        0 => (None, None),
                        n => (Some(known[*a as usize % n]), Some(known[*b as usize % n])),
                    };
                    let (op, a, b) = match (*op % 4, a) {
                        (0, _) | (_, None) => (OpCode::Const, None, None),
                        (1, _) => (OpCode::Add, a, b),
                        (2, _) => (OpCode::Mul, a, b),
                        _ => (OpCode::Sin, a, None),
                    };
                    let single = (*v as f32) as f64 == *v;
                    touched = Some(i);
                    let id = total("record", || hand(c, op, *v, a, b, single))?;
                    let after = content(c);
                    ensure!(after.3.get(id) == Some(v), "{}", at(format!("value of {} is {:?}", id, after.3.get(id))));
                    let want = Operation { opcode: op, vid: id, arg1: a, arg2: b };
                    let found = after.2.iter().filter(|o| o.vid == id).collect::<Vec<_>>();
                    ensure!(found == [&want], "{}", at(format!("operations {:?}, want {:?}", found, want)));
                    ensure!(after.0 == before.0 && after.1 == before.1, "{}", at("inputs or outputs changed".into()));
                    recs[i].log.push(Own::Hand(op, *v, a, b, single));
                    by_hand = true;
                }
            }
            Ev::Cast(v) => {
                if !vars.is_empty() {
                    let v = vars[*v as usize % vars.len()];
                    let x = total("cast", || AFloat::<f64>::cast(v.x))?;
                    vars.push(Var { x, ..v });
                }
            }
            Ev::OutputSlice(i, vs) => {
                if !live.is_empty() && !vars.is_empty() {
                    let i = live[*i as usize % live.len()];
                    let mut slice = vec![];
                    let mut regs = vec![];
                    for v in vs {
                        let v = vars[*v as usize % vars.len()];
                        match v.home {
                            None => {
                                recs[i].log.push(Own::Plain(v.shadow.value(), v.shadow.dvalue()));
                                recs[i].nregs += 1;
                                regs.push(recs[i].nregs - 1);
                            }
                            Some((h, l)) if h == i => regs.push(l),
                            _ => continue,
                        }
                        slice.push(v.x);
                    }
                    touched = Some(i);
                    total("declaring outputs", || recs[i].handles[0].set_dep_slice(&slice))?;
                    recs[i].log.push(Own::OutputSlice(regs));
                }
            }
            Ev::Redeclare(i, v) => {
                if !live.is_empty() && !vars.is_empty() {
                    let i = live[*i as usize % live.len()];
                    touched = Some(i);
                    let v = vars[*v as usize % vars.len()];
                    let mut x = v.x;
                    total("declaring an input", || recs[i].handles[0].set_indep(&mut x))?;
                    recs[i].log.push(Own::Input(v.shadow.value(), v.shadow.dvalue(), 2));
                    vars.push(Var { x, shadow: v.shadow, home: Some((i, recs[i].nregs)) });
                    recs[i].nregs += 1;
                }
            }
            Ev::Plain(a, b) => {
                let x = AFloat::new(*a, *b);
                vars.push(Var { x, shadow: x, home: None });
            }
            Ev::Step(op, a, b, kk, c) => {
                if vars.is_empty() {
                    continue;
                }
                let a = *a as usize % vars.len();
                // a partner that may be combined with it
                let ok: Vec<usize> = (0..vars.len())
                    .filter(|q| match (vars[a].home, vars[*q].home) {
                        (Some((h, _)), Some((g, _))) => h == g,
                        _ => true,
                    })
                    .collect();
                let b = ok[*b as usize % ok.len()];
                let i = any_ins(*op, a, b, *kk, *c);
                let used = operands(&i);
                let homes: BTreeSet<usize> = used.iter().filter_map(|r| vars[*r].home.map(|h| h.0)).collect();
                if homes.len() > 1 {
                    // covered by Mix
                    continue;
                }
                let home = homes.into_iter().next();
                let regs: Vec<AFloat<f64>> = vars.iter().map(|v| v.x).collect();
                let shadows: Vec<AFloat<f64>> = vars.iter().map(|v| v.shadow).collect();
                let x = total("operation", || step_af(&i, &regs))?;
                let shadow = step_af(&i, &shadows);
                let mut new_home = home.map(|h| (h, usize::MAX));
                if let Some(r) = home.filter(|h| !recs[*h].handles.is_empty()) {
                    touched = Some(r);
                    let rec = &mut recs[r];
                    let mut extra = vec![];
                    let mut n = rec.nregs;
                    let i = renamed(&i, &mut |q| match vars[q].home {
                        Some((_, l)) => l,
                        None => {
                            extra.push(Own::Plain(vars[q].shadow.value(), vars[q].shadow.dvalue()));
                            n += 1;
                            n - 1
                        }
                    });
                    rec.log.append(&mut extra);
                    rec.log.push(Own::Step(i));
                    rec.nregs = n + 1;
                    rec.steps += 1;
                    new_home = Some((r, n));
                }
                vars.push(Var { x, shadow, home: new_home });
            }
            Ev::Mix(op, a, b) => {
                if vars.is_empty() {
                    continue;
                }
                let (a, b) = (vars[*a as usize % vars.len()], vars[*b as usize % vars.len()]);
                if let (Some((ha, _)), Some((hb, _))) = (home_of(&recs, &a), home_of(&recs, &b)) {
                    if ha != hb {
                        mixed += 1;
                        let b_ = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Powf][*op as usize % 5];
                        let i = Ins::Bin(b_, Opd::R(0), Opd::R(1), *op >= 128 && b_ != Bin::Powf);
                        ensure!(
                            caught(|| step_af(&i, &[a.x, b.x])).is_none(),
                            "{}", at(format!("{:?} of variables of the recordings {} and {} is not refused", b_, ha, hb))
                        );
                    }
                }
            }
            Ev::Output(i, v) => {
                if !live.is_empty() && !vars.is_empty() {
                    let i = live[*i as usize % live.len()];
                    let v = vars[*v as usize % vars.len()];
                    let r = match v.home {
                        None => {
                            recs[i].log.push(Own::Plain(v.shadow.value(), v.shadow.dvalue()));
                            recs[i].nregs += 1;
                            recs[i].nregs - 1
                        }
                        Some((h, l)) if h == i => l,
                        Some((h, _)) => {
                            if !recs[h].handles.is_empty() {
                                foreign_outputs += 1;
                                ensure!(
                                    caught(|| recs[i].handles[0].set_dep(&v.x)).is_none(),
                                    "{}", at(format!("a variable of recording {} is accepted as output of {}", h, i))
                                );
                            }
                            continue;
                        }
                    };
                    touched = Some(i);
                    total("declaring an output", || recs[i].handles[0].set_dep(&v.x))?;
                    recs[i].log.push(Own::Output(r));
                }
            }
        }
        // nothing else changed
        for (i, (a, b)) in before.iter().zip(lens(&recs)).enumerate() {
            if Some(i) != touched && b.is_some() {
                ensure!(*a == b, "{}", at(format!("recording {} changed from {:?} to {:?} entries", i, a, b)));
            }
        }
        check_registry(&recs).map_err(at)?;
        for (i, v) in vars.iter().enumerate() {
            ensure!(
                same(v.x.value(), v.shadow.value()) && same(v.x.dvalue(), v.shadow.dvalue()),
                "{}", at(format!("variable {} is {:?}, want {:?}", i, v.x, v.shadow))
            );
        }
    }
    o.nontrivial = max_live >= 2 && recs.iter().filter(|r| r.steps > 0).count() >= 2;
    o.class_if(mixed > 0, "variables of two recordings combined");
    o.class_if(foreign_outputs > 0, "refused output, recording used on");
    o.class_if(by_hand, "operations entered by hand");
    o.class_if(outlived, "variables outlived their recording");
    o.class_if(recs.iter().any(|r| r.handles.is_empty()), "recording dropped");
    o.sample(|| format!("{:?}", h.evs));
    for (i, r) in recs.iter().enumerate() {
        if let Some(c) = r.handles.first() {
            if let Some(d) = differ(&content(c), &alone(&r.log)) {
                return Err(format!("recording {} differs from the same recording alone: {}", i, d));
            }
        }
    }
    // a foreign variable is refused as output
    let live: Vec<usize> = (0..recs.len()).filter(|i| !recs[*i].handles.is_empty()).collect();
    let foreign: Vec<&Var> = vars.iter().filter(|v| v.home.is_some()).collect();
    if !live.is_empty() && !foreign.is_empty() {
        let i = live[h.foreign.0 as usize % live.len()];
        let v = foreign[h.foreign.1 as usize % foreign.len()];
        let hv = v.home.unwrap().0;
        if hv != i && !recs[hv].handles.is_empty() {
            o.class("foreign output");
            let others: Vec<Content> = live.iter().filter(|j| **j != i).map(|j| content(&recs[*j].handles[0])).collect();
            ensure!(
                caught(|| recs[i].handles[0].set_dep(&v.x)).is_none(),
                "a variable of recording {} is accepted as output of {}", hv, i
            );
            for (j, c) in live.iter().filter(|j| **j != i).zip(&others) {
                if let Some(d) = differ(&content(&recs[*j].handles[0]), c) {
                    return Err(format!("refusing a foreign output changed recording {}: {}", j, d));
                }
            }
        }
    }
    let cids: Vec<usize> = recs.iter().map(|r| r.cid).collect();
    drop(recs);
    for c in cids {
        ensure!(AContext::from_cid(c).is_none(), "recording {} is still found at the end", c);
    }
    Ok(())
}

/// Many recordings at a time: rounds of creating, dropping and using
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyCase {
    /// created, one in how many is dropped, used
    rounds: Vec<(u16, u8, u16)>,
    seed: u64,
}

fn many() -> BoxedStrategy<ManyCase> {
    let count = prop_oneof![2 => 0u16..20, 2 => 20u16..300, 1 => 300u16..3000];
    (pvec((count, any::<u8>(), 0u16..200), 1..5), any::<u64>())
        .prop_map(|(rounds, seed)| ManyCase { rounds, seed })
        .boxed()
}

fn check_many(c: &ManyCase, o: &mut Obs) -> Res {
    let mut seed = c.seed;
    let mut next = |below: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) as usize % below
    };
    // recording, its variable, its value, operations so far
    let mut live: Vec<(AContext, AFloat<f64>, f64, usize)> = vec![];
    let mut gone: Vec<(usize, AFloat<f64>, f64)> = vec![];
    let mut most = 0;
    for (k, (new, drops, uses)) in c.rounds.iter().enumerate() {
        for _ in 0..*new {
            let mut ctx = total("AContext::new", AContext::new)?;
            let v = next(1000) as f64;
            let x = ctx.new_indep(v);
            live.push((ctx, x, v, 0));
        }
        most = most.max(live.len());
        let m = 2 + *drops as usize % 6;
        let mut kept = vec![];
        for e in live {
            if next(m) == 0 {
                gone.push((e.0.cid(), e.1, e.2));
            } else {
                kept.push(e);
            }
        }
        live = kept;
        for _ in 0..*uses {
            if live.is_empty() {
                break;
            }
            let i = next(live.len());
            let e = &mut live[i];
            // one operation of two recorded numbers
            e.1 = total("operation", || e.1 + e.1)?;
            e.2 += e.2;
            e.3 += 1;
        }
        let mut ids: Vec<usize> = live.iter().map(|e| e.0.cid()).chain(gone.iter().map(|g| g.0)).collect();
        let all = ids.len();
        ids.sort_unstable();
        ids.dedup();
        ensure!(ids.len() == all, "round {}: an id is used twice", k);
        for e in &live {
            let f = AContext::from_cid(e.0.cid());
            ensure!(
                f.map_or(false, |f| f.cid() == e.0.cid() && f.operations().len() == e.3),
                "round {}: live recording {} is not found with its {} operations", k, e.0.cid(), e.3
            );
            ensure!(e.1.value() == e.2, "round {}: value {:?}, want {:?}", k, e.1, e.2);
        }
        for g in &gone {
            ensure!(AContext::from_cid(g.0).is_none(), "round {}: dropped recording {} is found", k, g.0);
            ensure!((g.1 + g.1).value() == 2.0 * g.2, "round {}: a variable that outlived its recording", k);
        }
    }
    o.nontrivial = most > 20 && !gone.is_empty();
    o.class_if(most > 1024, "more than 1024 recordings at a time");
    o.sample(|| format!("{:?}", c));
    Ok(())
}

pub fn c21(run: &mut Run) {
    run.rule = "Random histories over up to five live recordings: create, look up by id, drop \
        handles, declare inputs and outputs (one or several at once), enter operations by hand, declare variables of one recording as inputs of \
        another, arithmetic within a recording, with plain variables and with variables of dropped \
        recordings, and forbidden combinations; each recording is compared with the same recording \
        made alone, and the registry, all values and the sizes of the untouched recordings are \
        checked after every step; also thousands of recordings at a time, and steps made on different threads. Non-trivial: at least two \
        recordings alive together and operations in at least two; more than 20 recordings, some dropped.";
    run.sub("history", (30_000, 600_000), history, check_history);
    run.sub("many", (100, 3_000), many, check_many);
    run.sub("moving", (2_000, 40_000), moving, check_moving);
}

// ---------------------------------------------------------------------------------------------
// C22
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OwnCase {
    work: Vec<(Raw, Vec<f64>)>,
    threads: usize,
    rounds: usize,
}

#[derive(Clone, PartialEq, Debug)]
struct Outcome {
    bits: Vec<u64>,
}

impl Outcome {
    /// Equal but for the last bits: sums may be formed in any order
    fn like(&self, other: &Outcome) -> bool {
        self.bits.len() == other.bits.len()
            && self.bits.iter().zip(&other.bits).all(|(a, b)| {
                let (x, y) = (f64::from_bits(*a), f64::from_bits(*b));
                a == b || x == y || (x - y).abs() <= 1e-9 * x.abs().min(y.abs()).min(1e300) + 1e-12
            })
    }
}

/// Everything one thread computes from its program: tape, sweeps, drivers
fn outcome(p: &Prog, x: &[f64], smooth: bool) -> Outcome {
    let mut bits = vec![];
    let mut put = |v: &mut dyn Iterator<Item = f64>| bits.extend(v.map(|f| if f.is_nan() { u64::MAX } else { f.to_bits() }));
    let mut tape = record::<f64>(p, x, false);
    put(&mut tape.indeps().iter().chain(tape.deps()).map(|i| *i as f64));
    put(&mut tape.values().iter().cloned());
    for op in tape.ops_iter() {
        let e = |a: Option<usize>| a.map_or(-1.0, |a| a as f64);
        put(&mut format!("{:?}", op.opcode).bytes().map(|b| b as f64));
        put(&mut [op.vid as f64, e(op.arg1), e(op.arg2)].into_iter());
    }
    let d = dv(&(0..p.n).map(|i| 1.0 + i as f64).collect::<Vec<_>>());
    put(&mut tape.first_order_forward(&d).iter().cloned());
    if smooth {
        let w = dv(&(0..p.m()).map(|i| 1.0 - 0.5 * i as f64).collect::<Vec<_>>());
        put(&mut tape.first_order_reverse(&w).iter().cloned());
        put(&mut jacobian_reverse(&tape).iter().cloned());
        put(&mut jacobian_forward(&PF(p.clone()), &dv(x)).iter().cloned());
    } else {
        let a = abs_normal(&PF(p.clone()), &dv(x));
        put(&mut a.zmat.iter().cloned());
        put(&mut a.lmat.iter().cloned());
        put(&mut a.jmat.iter().cloned());
        put(&mut a.ymat.iter().chain(a.a.iter()).chain(a.b.iter()).cloned());
    }
    tape.zero_order(&(dv(x) * 0.5));
    put(&mut tape.values().iter().cloned());
    let t = PF(p.clone()).tape(&dv(x));
    put(&mut t.values().iter().cloned());
    Outcome { bits }
}

fn check_own(c: &OwnCase, o: &mut Obs) -> Res {
    let work: Vec<(Prog, Vec<f64>, bool)> = c
        .work
        .iter()
        .enumerate()
        .map(|(i, (r, x))| {
            let x = fit(x, r.n);
            let smooth = i % 2 == 0;
            let p = compile(r, if smooth { Profile::Smooth } else { Profile::Full }, &[x.clone()], &[], false);
            (p, x, smooth)
        })
        .collect();
    let want: Vec<Outcome> = total("sequential recording", || work.iter().map(|(p, x, s)| outcome(p, x, *s)).collect())?;
    o.nontrivial = c.threads >= 2 && work.iter().any(|(p, _, _)| p.ins.len() >= 3);
    o.sample(|| format!("{} threads x {} rounds: {}", c.threads, c.rounds, work.iter().map(|w| w.0.show()).collect::<Vec<_>>().join(" | ")));
    let repeat = if o.replaying { 200 } else { 1 };
    for _ in 0..repeat {
        let barrier = Barrier::new(c.threads);
        let ids: Mutex<Vec<usize>> = Mutex::new(vec![]);
        let results: Vec<Result<Res, ()>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..c.threads)
                .map(|t| {
                    let (work, want, barrier, ids) = (&work, &want, &barrier, &ids);
                    s.spawn(move || -> Res {
                        barrier.wait();
                        let mut mine = vec![];
                        for r in 0..c.rounds {
                            let k = (t + r) % work.len();
                            let extra = AContext::new();
                            mine.push(extra.cid());
                            let (p, x, smooth) = &work[k];
                            let got = total("concurrent recording", || outcome(p, x, *smooth))?;
                            ensure!(got.like(&want[k]), "thread {}: recording differs from the sequential one; {}", t, p.show());
                            ensure!(
                                AContext::from_cid(extra.cid()).is_some(),
                                "a live recording is not found while others are made"
                            );
                            let id = extra.cid();
                            drop(extra);
                            ensure!(AContext::from_cid(id).is_none(), "a dropped recording is still found");
                        }
                        ids.lock().unwrap().append(&mut mine);
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map_err(|_| ())).collect()
        });
        for r in results {
            r.map_err(|_| format!("thread panicked: {}", last_panic()))??;
        }
        let ids = ids.into_inner().unwrap();
        ensure!(ids.iter().collect::<HashSet<_>>().len() == ids.len(), "two recordings with the same id");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SharedCase {
    raws: Vec<Raw>,
    rec: Vec<f64>,
    pts: Vec<Vec<f64>>,
    w: Vec<f64>,
    smooth: bool,
    /// the threads declare their inputs and outputs themselves
    own_inputs: bool,
    own_outputs: bool,
    snapshots: bool,
    /// plain numbers that each thread declares as outputs
    #[serde(default)]
    plain: u8,
}

fn shared() -> BoxedStrategy<SharedCase> {
    (
        pvec(raw(1usize..4, 1..14, 1..4usize), 2..7),
        vals(5),
        pvec(vals(5), 1..3),
        vals(5),
        any::<[bool; 4]>(),
        prop_oneof![2 => Just(0u8), 1 => 1u8..4, 1 => 4u8..30],
    )
        .prop_map(|(raws, rec, pts, w, f, plain)| SharedCase {
            raws,
            rec,
            pts,
            w,
            smooth: f[0],
            own_inputs: f[1],
            own_outputs: f[2],
            snapshots: f[3],
            plain,
        })
        .boxed()
}

fn check_shared(c: &SharedCase, o: &mut Obs) -> Res {
    let k = c.raws.len();
    let profile = if c.smooth { Profile::Smooth } else { Profile::Full };
    // point of thread t's program at replay q
    let point = |q: usize, t: usize, n: usize| -> Vec<f64> {
        let v: Vec<f64> = c.pts[q].iter().cycle().skip(t).take(5).cloned().collect();
        fit(&v, n)
    };
    let progs: Vec<Prog> = c
        .raws
        .iter()
        .enumerate()
        .map(|(t, r)| {
            let pts: Vec<Vec<f64>> = (0..c.pts.len()).map(|q| point(q, t, r.n)).collect();
            let mut p = compile(r, profile, &pts, &[], false);
            // every output depends on an input of its thread, which tells outputs of threads apart
            for o in p.outs.iter_mut() {
                p.ins.push(Ins::Bin(Bin::Add, Opd::R(*o), Opd::R(0), false));
                *o = p.n + p.ins.len() - 1;
            }
            p
        })
        .collect();
    // recorded at unique values, which tell inputs apart
    let rec: Vec<Vec<f64>> = progs
        .iter()
        .enumerate()
        .map(|(t, p)| (0..p.n).map(|i| c.rec[i % 5] + 1000.0 * (t * 8 + i + 1) as f64).collect())
        .collect();
    o.nontrivial = progs.iter().all(|p| p.ins.len() >= 2);
    o.class_if(c.own_inputs, "threads declare their inputs");
    o.class_if(c.own_outputs, "threads declare their outputs");
    o.class_if(c.snapshots, "tapes taken meanwhile");
    o.sample(|| format!("{} threads: {}", k, progs.iter().map(|p| p.show()).collect::<Vec<_>>().join(" | ")));
    let num_abs: usize = progs.iter().zip(&rec).map(|(p, x)| record::<f64>(p, x, false).num_abs()).sum();
    // distinct from all inputs
    let plain = |t: usize, i: usize| -1e6 - (100 * t + i) as f64;
    o.class_if(c.plain > 0, "threads declare plain outputs");
    let repeat = if o.replaying { 300 } else { 1 };
    for _ in 0..repeat {
        let mut ctx = AContext::new();
        let cid = ctx.cid();
        let mut inputs: Vec<Vec<AFloat<f64>>> = rec.iter().map(|x| x.iter().map(|v| AFloat::new(*v, 0.0)).collect()).collect();
        if !c.own_inputs {
            for x in inputs.iter_mut().flatten() {
                ctx.set_indep(x);
            }
        }
        let barrier = Barrier::new(k + 1);
        let done = AtomicBool::new(false);
        type Out = Result<Vec<AFloat<f64>>, String>;
        let (outs, snap): (Vec<Out>, Res) = std::thread::scope(|s| {
            let hs: Vec<_> = progs
                .iter()
                .zip(&inputs)
                .enumerate()
                .map(|(t, (p, x))| {
                    let barrier = &barrier;
                    let mut x = x.clone();
                    s.spawn(move || -> Out {
                        let handle = AContext::from_cid(cid);
                        barrier.wait();
                        let mut h = handle.ok_or("the shared recording is not found")?;
                        if c.own_inputs {
                            for v in x.iter_mut() {
                                h.set_indep(v);
                            }
                        }
                        let r = run_af(p, &x);
                        let out: Vec<AFloat<f64>> = p.outs.iter().map(|o| r[*o]).collect();
                        for i in 0..c.plain as usize {
                            h.set_dep(&AFloat::<f64>::new(plain(t, i), 1.0));
                        }
                        if c.own_outputs {
                            h.set_dep_slice(&out);
                        }
                        Ok(out)
                    })
                })
                .collect();
            let (ctx, done_, barrier_) = (&ctx, &done, &barrier);
            let sn = s.spawn(move || -> Res {
                barrier_.wait();
                if c.snapshots {
                    loop {
                        let last = done_.load(Ordering::SeqCst);
                        well_formed(&ctx.tape()).map_err(|e| format!("tape taken while threads record: {}", e))?;
                        if last {
                            break;
                        }
                    }
                }
                Ok(())
            });
            let outs = hs
                .into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err(format!("a thread panicked: {}", last_panic()))))
                .collect();
            done.store(true, Ordering::SeqCst);
            (outs, sn.join().unwrap_or_else(|_| Err(format!("panic: {}", last_panic()))))
        });
        let outs: Vec<Vec<AFloat<f64>>> = outs.into_iter().collect::<Result<_, _>>()?;
        snap?;
        if !c.own_outputs {
            for o in &outs {
                ctx.set_dep_slice(o);
            }
        }
        let mut tape = ctx.tape();
        well_formed(&tape)?;
        // inputs by their recorded value
        let (n, m): (usize, usize) = (progs.iter().map(|p| p.n).sum(), progs.iter().map(|p| p.m()).sum());
        ensure!(tape.num_indeps() == n, "{} inputs, want {}", tape.num_indeps(), n);
        let extra = k * c.plain as usize;
        ensure!(tape.num_deps() == m + extra, "{} outputs, want {}", tape.num_deps(), m + extra);
        // outputs that are plain numbers
        let is_const: HashSet<usize> = tape.ops_iter().filter(|op| op.opcode == OpCode::Const).map(|op| op.vid).collect();
        let rows: Vec<usize> = (0..tape.num_deps()).filter(|r| !is_const.contains(&tape.deps()[*r])).collect();
        let mut plain_: Vec<i64> = (0..tape.num_deps()).filter(|r| !rows.contains(r)).map(|r| tape.y()[r] as i64).collect();
        plain_.sort();
        let mut plain_want: Vec<i64> = (0..k).flat_map(|t| (0..c.plain as usize).map(move |i| plain(t, i) as i64)).collect();
        plain_want.sort();
        ensure!(plain_ == plain_want, "plain outputs {:?}, want {:?}", plain_, plain_want);
        ensure!(tape.num_abs() == num_abs, "num_abs");
        let x0 = tape.x();
        let find = |v: f64| x0.iter().position(|w| *w == v);
        let mut place: Vec<Vec<usize>> = vec![];
        for x in &rec {
            let mut l = vec![];
            for v in x {
                l.push(find(*v).ok_or_else(|| format!("no input with the value {:?}: {:?}", v, x0))?);
            }
            place.push(l);
        }
        // outputs by what they depend on
        let mut owner: Vec<Option<usize>> = vec![None; tape.values().len()];
        for (t, l) in place.iter().enumerate() {
            for i in l {
                owner[tape.indeps()[*i]] = Some(t);
            }
        }
        for op in tape.ops_iter() {
            if op.opcode == OpCode::Nop {
                continue;
            }
            let own: BTreeSet<usize> = [op.arg1, op.arg2].into_iter().flatten().filter_map(|a| owner[a]).collect();
            ensure!(own.len() <= 1, "operation {:?} combines values of the threads {:?}", op, own);
            owner[op.vid] = own.into_iter().next();
        }
        let mut next = vec![0; k];
        let mut which: Vec<(usize, usize)> = vec![];
        for d in rows.iter().map(|r| &tape.deps()[*r]) {
            let t = owner[*d].ok_or("an output depends on no input")?;
            which.push((t, next[t]));
            next[t] += 1;
        }
        for (t, p) in progs.iter().enumerate() {
            ensure!(next[t] == p.m(), "thread {} has {} outputs, want {}", t, next[t], p.m());
        }
        for (t, j) in &which {
            ensure!(same(tape.y()[rows[which.iter().position(|w| w == &(*t, *j)).unwrap()]], outs[*t][*j].value()), "recorded output value");
        }
        // replays and derivatives
        for q in 0..c.pts.len() {
            let mut x = vec![0.0; n];
            for (t, l) in place.iter().enumerate() {
                for (i, v) in l.iter().zip(point(q, t, progs[t].n)) {
                    x[*i] = v;
                }
            }
            total("replay", || tape.zero_order(&dv(&x)))?;
            let dx: Vec<f64> = (0..n).map(|i| c.w[i % 5]).collect();
            let dy = total("forward sweep", || tape.first_order_forward(&dv(&dx)))?;
            let y = tape.y();
            for (row, (t, j)) in rows.iter().cloned().zip(&which) {
                let p = &progs[*t];
                let d: Vec<f64> = place[*t].iter().map(|i| dx[*i]).collect();
                let want = ref_delta(p, &point(q, *t, p.n), &d, U64).ok_or("reference")?;
                let w = &want[p.outs[*j]];
                ensure!(close(y[row], w.v, w.ev), "output {} of thread {}: {:?} want {:?}; {}", j, t, y[row], w.v, p.show());
                ensure!(close(dy[row], w.g[0], w.eg[0]), "derivative of output {} of thread {}: {:?} want {:?}; {}", j, t, dy[row], w.g[0], p.show());
            }
            if c.smooth {
                let w: Vec<f64> = (0..m + extra).map(|i| c.w[(i + 2) % 5]).collect();
                let xb = total("reverse sweep", || tape.first_order_reverse(&dv(&w)))?;
                for (t, l) in place.iter().enumerate() {
                    let p = &progs[t];
                    let g = ref_grad(p, &point(q, t, p.n), U64).ok_or("reference")?;
                    for (i, pos) in l.iter().enumerate() {
                        let (mut want, mut err) = (0.0, 0.0);
                        for (row, (tt, j)) in rows.iter().cloned().zip(&which) {
                            if *tt == t {
                                let gg = &g[p.outs[*j]];
                                want += w[row] * gg.g[i];
                                err += w[row].abs() * (gg.eg[i] + 1e-14 * (m + p.ins.len()) as f64 * gg.g[i].abs());
                            }
                        }
                        ensure!(close(xb[*pos], want, err), "reverse sweep, thread {} input {}: {:?} want {:?}; {}", t, i, xb[*pos], want, p.show());
                    }
                }
            }
        }
        let id = ctx.cid();
        drop(ctx);
        ensure!(AContext::from_cid(id).is_none(), "the shared recording is still found");
    }
    Ok(())
}

/// One recording after the other, every step on some thread
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MovingCase {
    work: Vec<(Raw, Vec<f64>)>,
    /// threads of the steps
    at: Vec<u8>,
    /// the recordings are made alternately
    alternate: bool,
}

fn moving() -> BoxedStrategy<MovingCase> {
    (pvec((raw(1usize..4, 1..12, 1..4usize), vals(5)), 1..4), pvec(any::<u8>(), 1..9), any::<bool>())
        .prop_map(|(work, at, alternate)| MovingCase { work, at, alternate })
        .boxed()
}

fn workers() -> &'static [rayon::ThreadPool] {
    static W: std::sync::OnceLock<Vec<rayon::ThreadPool>> = std::sync::OnceLock::new();
    W.get_or_init(|| (0..12).map(|_| rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap()).collect())
}

fn check_moving(c: &MovingCase, o: &mut Obs) -> Res {
    let progs: Vec<(Prog, Vec<f64>)> = c
        .work
        .iter()
        .map(|(r, x)| {
            let x = fit(x, r.n);
            (compile(r, Profile::Full, &[x.clone()], &[], false), x)
        })
        .collect();
    let mut step = 0;
    let mut used = HashSet::new();
    let mut next = || {
        step += 1;
        let t = c.at[step % c.at.len()] as usize % workers().len();
        used.insert(t);
        &workers()[t]
    };
    let on = |w: &rayon::ThreadPool, f: &mut (dyn FnMut() + Send)| -> Res { total("a step", || w.install(|| f())) };
    let mut ctxs: Vec<AContext> = vec![];
    let mut regs: Vec<Vec<AFloat<f64>>> = vec![];
    for (_, x) in &progs {
        let mut ctx = None;
        on(next(), &mut || ctx = Some(AContext::new()))?;
        let mut ctx = ctx.unwrap();
        let mut xs = vec![];
        for v in x {
            on(next(), &mut || xs.push(ctx.new_indep(*v)))?;
        }
        ctxs.push(ctx);
        regs.push(xs);
    }
    let most = progs.iter().map(|p| p.0.ins.len()).max().unwrap_or(0);
    let order: Vec<(usize, usize)> = if c.alternate {
        (0..most).flat_map(|i| (0..progs.len()).map(move |q| (q, i))).collect()
    } else {
        (0..progs.len()).flat_map(|q| (0..most).map(move |i| (q, i))).collect()
    };
    for (q, i) in order {
        if let Some(ins) = progs[q].0.ins.get(i) {
            let r = &mut regs[q];
            on(next(), &mut || {
                let v = step_af(ins, r);
                r.push(v)
            })?;
        }
    }
    for ((p, x), (mut ctx, r)) in progs.iter().zip(ctxs.into_iter().zip(regs)) {
        for d in &p.outs {
            on(next(), &mut || ctx.set_dep(&r[*d]))?;
        }
        let mut got = None;
        on(next(), &mut || got = Some(content(&ctx)))?;
        let mut alone = AContext::new();
        let xs: Vec<AFloat<f64>> = x.iter().map(|v| alone.new_indep(*v)).collect();
        let ra = run_af(p, &xs);
        p.outs.iter().for_each(|d| alone.set_dep(&ra[*d]));
        if let Some(d) = differ(&got.unwrap(), &content(&alone)) {
            return Err(format!("steps on several threads give another recording: {}; {}", d, p.show()));
        }
        for (g, w) in r.iter().zip(&ra) {
            ensure!(same(g.value(), w.value()) && same(g.dvalue(), w.dvalue()), "value {:?}, want {:?}", g, w);
        }
        let cid = ctx.cid();
        let mut found = false;
        on(next(), &mut || found = AContext::from_cid(cid).is_some())?;
        ensure!(found, "a live recording is not found on another thread");
        let mut ctx = Some(ctx);
        on(next(), &mut || drop(ctx.take()))?;
        for w in workers() {
            let mut found = false;
            on(w, &mut || found = AContext::from_cid(cid).is_some())?;
            ensure!(!found, "a dropped recording is still found");
        }
        if let Some(v) = r.last() {
            let mut sum = None;
            on(next(), &mut || sum = Some(*v + *v))?;
            ensure!(same(sum.unwrap().value(), v.value() + v.value()), "a variable that outlived its recording");
        }
    }
    o.nontrivial = used.len() >= 2 && most >= 2;
    o.sample(|| format!("threads {:?}: {}", c.at, progs.iter().map(|w| w.0.show()).collect::<Vec<_>>().join(" | ")));
    Ok(())
}

pub fn c22(run: &mut Run) {
    run.rule = "Random programs recorded by 2-6 threads at once, (own) each thread into recordings \
        of its own, running sweeps and drivers, with everything compared (up to rounding) to the same \
        work done by one thread; (shared) all threads into one recording, declaring inputs and \
        outputs before, after or themselves, with tapes taken meanwhile: the tape must be well \
        formed and every thread's part must replay and differentiate like the reference; (moving) every \
        step of a few recordings is made on some thread, one after the other. The \
        schedule is that of the operating system. Non-trivial: at least two threads with several \
        operations.";
    run.sub("own", (8_000, 100_000), || {
        (pvec((raw(1usize..5, 1..14, 1..4usize), vals(5)), 1..5), 2usize..7, 1usize..5)
            .prop_map(|(work, threads, rounds)| OwnCase { work, threads, rounds })
    }, check_own);
    run.sub("shared", (8_000, 200_000), shared, check_shared);
    run.sub("moving", (2_000, 60_000), moving, check_moving);
}
