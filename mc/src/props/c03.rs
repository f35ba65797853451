//! C03: one shared System, all schedules of small programs, against a sequential model.
use crate::{engine::*, explore::*, lin::*, model::{self, Rule}, util::*};
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::SymbolStore;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// add a production of the pool, parsed beforehand
    Add(u8),
    /// add it as text
    AddText(u8),
    AddSym(u8),
    Get(u8),
    Rules,
    Symbols,
    /// derive a start string for some iterations
    Derive(u8, u8),
    Once(u8),
}
use Op::*;

/// Symbols are numbered; 0 = A, 1 = B, ...
const NAMES: [&str; 6] = ["A", "B", "C", "D", "E", "F"];
fn pool() -> Vec<(&'static str, Rule)> {
    vec![
        ("A -> B A", Rule::new(&[], 0, &[], &[1, 0])),
        ("A -> C", Rule::new(&[], 0, &[], &[2])),
        ("B -> A D", Rule::new(&[], 1, &[], &[0, 3])),
        ("A < B > E -> C C", Rule::new(&[0], 1, &[4], &[2, 2])),
        ("B ->", Rule::new(&[], 1, &[], &[])),
    ]
}
const STARTS: [&[u8]; 3] = [&[0], &[0, 1], &[0, 1, 4]];

#[derive(Clone, Debug)]
enum Res { Rule(Vec<String>), Sym(String), Found(Option<String>), Len(usize), Text(String), Error(String) }

fn text(s: &[u8]) -> String { s.iter().map(|c| NAMES[*c as usize]).collect::<Vec<_>>().join(" ") }
fn bodies(p: &Production) -> Vec<String> { p.all_bodies().iter().map(|b| b.string().to_string()).collect() }
fn start(i: u8) -> ProductionString { ProductionString::from(STARTS[i as usize].iter().map(|c| Symbol::build(NAMES[*c as usize]).unwrap()).collect::<Vec<_>>()) }

fn perform(op: Op, sys: &System, ready: &[Production]) -> Res {
    let err = |e: Error| Res::Error(e.to_string());
    match op {
        Add(i) => sys.add_production(ready[i as usize].clone()).map(|p| Res::Rule(bodies(&p))).unwrap_or_else(err),
        AddText(i) => sys.add_production(pool()[i as usize].0).map(|p| Res::Rule(bodies(&p))).unwrap_or_else(err),
        AddSym(i) => sys.add_symbol(NAMES[i as usize]).map(|s| Res::Sym(s.to_string())).unwrap_or_else(err),
        Get(i) => Res::Found(sys.get_symbol(NAMES[i as usize]).map(|s| s.to_string())),
        Rules => Res::Len(sys.production_len()),
        Symbols => Res::Len(sys.symbol_len()),
        Derive(s, n) => sys.derive(start(s), RunSettings::for_max_iterations(n as usize)).map(|s| Res::Text(s.to_string())).unwrap_or_else(err),
        Once(s) => sys.derive_once(start(s)).map(|s| Res::Text(s.to_string())).unwrap_or_else(err),
    }
}

#[derive(Clone, Hash, Default)]
struct State { symbols: BTreeSet<u8>, rules: Vec<Rule>, /** symbols and rules of the system that no other call speaks of */ filled: (usize, usize) }

enum Effect { Symbol(u8), Rule(Rule, Vec<String>), Check(Op, String) }

fn apply(s: &mut State, e: &Effect) -> bool {
    match e {
        Effect::Symbol(c) => { s.symbols.insert(*c); true }
        Effect::Rule(r, want) => {
            let got = model::add(&mut s.rules, r);
            got.bodies.iter().map(|b| text(b)).collect::<Vec<_>>() == *want
        }
        Effect::Check(op, got) => match op {
            Get(i) => *got == format!("{:?}", s.symbols.contains(i).then(|| NAMES[*i as usize].to_string())),
            Rules => *got == (s.rules.len() + s.filled.1).to_string(),
            Symbols => *got == (s.symbols.len() + s.filled.0).to_string(),
            Derive(..) | Once(_) => {
                let (st, n) = match op { Derive(s, n) => (*s, *n), Once(s) => (*s, 1), _ => unreachable!() };
                let mut set = BTreeSet::from([STARTS[st as usize].to_vec()]);
                for _ in 0..n { set = set.iter().flat_map(|x| model::possible(&s.rules, x)).collect() }
                set.iter().any(|x| text(x) == *got)
            }
            _ => true,
        },
    }
}

fn steps(log: &[Rec<Op, Res>]) -> Result<Vec<Step<Effect>>, String> {
    let mut v: Vec<Step<Effect>> = vec![];
    for r in log {
        let res = match &r.res {
            Err(m) => return Err(format!("{:?} panicked: {m}", r.op)),
            Ok(Res::Error(e)) => return Err(format!("{:?} failed: {e}", r.op)),
            Ok(x) => x,
        };
        let at = |after: Vec<usize>, effect| Step { start: r.start, end: r.end, after, effect };
        match (&r.op, res) {
            (Add(i) | AddText(i), Res::Rule(b)) => {
                let rule = pool()[*i as usize].1.clone();
                let mut syms: BTreeSet<u8> = BTreeSet::from([rule.target]);
                syms.extend(rule.left.iter().chain(&rule.right).chain(&rule.bodies[0]));
                let mut deps = vec![];
                for c in syms { deps.push(v.len()); v.push(at(vec![], Effect::Symbol(c))); }
                v.push(at(deps, Effect::Rule(rule, b.clone())));
            }
            (AddSym(i), Res::Sym(s)) => {
                if s != NAMES[*i as usize] { return Err(format!("adding {} returned {s}", NAMES[*i as usize])) }
                v.push(at(vec![], Effect::Symbol(*i)));
            }
            (_, Res::Found(f)) => v.push(at(vec![], Effect::Check(r.op, format!("{f:?}")))),
            (_, Res::Len(n)) => v.push(at(vec![], Effect::Check(r.op, n.to_string()))),
            (_, Res::Text(t)) => v.push(at(vec![], Effect::Check(r.op, t.clone()))),
            (o, r) => return Err(format!("{o:?} gave {r:?}")),
        }
    }
    Ok(v)
}

const PRELUDES: [&[Op]; 3] = [&[], &[Add(0)], &[Add(0), Add(4), AddSym(5)]];

/// `fill`: how many other symbols, and how many other rules (each with its own symbol), the system has.
fn setup(pre: usize, fill: (usize, usize), prog: &[Vec<Op>]) -> (Vec<Body>, Judge) {
    let sys = Arc::new(System::new());
    for k in 0..fill.0 { sys.add_symbol(format!("s{k}").as_str()).expect("symbol"); }
    for k in 0..fill.1 { sys.add_production(format!("r{k} -> r{k}").as_str()).expect("rule"); }
    let log: Log<Op, Res> = Arc::new(Mutex::new(vec![]));
    // interning is C02's subject: intern everything up front, so that schedules are about the system
    for n in NAMES { Symbol::build(n).unwrap(); }
    let ready: Arc<Vec<Production>> = Arc::new(pool().iter().map(|p| rusty_systems::parser::parse_production(p.0).unwrap()).collect());
    for op in PRELUDES[pre] { call(&log, 9, op, || perform(*op, &sys, &ready)); }
    let bodies_ = prog.iter().cloned().enumerate().map(|(t, ops)| {
        let (log, sys, ready) = (log.clone(), sys.clone(), ready.clone());
        Box::new(move || for op in ops { call(&log, t, &op, || perform(op, &sys, &ready)) }) as Body
    }).collect();
    let judge = move |_: &vctl::sched::Outcome| {
        // what the quiescent system answers is part of the history
        for op in [Rules, Symbols, Get(0), Get(1), Get(2), Get(3), Get(4), Get(5), Once(0), Once(1), Once(2), Derive(1, 2)] {
            call(&log, 8, &op, || perform(op, &sys, &ready));
        }
        let log = log.lock().unwrap();
        let out = log.iter().map(|r| format!("{}:{:?}={:?}", r.thread, r.op, r.res)).collect::<Vec<_>>().join(" ");
        let steps = steps(&log)?;
        for (k, n) in [("s", fill.0), ("r", fill.1)] { for i in 0..n { if sys.get_symbol(&format!("{k}{i}")).is_none() { return Err(format!("the system lost its symbol {k}{i}")) } } }
        if !linearizable(State { filled: (fill.0 + fill.1, fill.1), ..State::default() }, &steps, &apply) {
            return Err(format!("no sequential order of the calls gives these results: {}",
                log.iter().map(|r| format!("[thread {} {:?} {}..{} gave {:?}]", r.thread, r.op, r.start, r.end, r.res.as_ref().ok())).collect::<Vec<_>>().join(" ")));
        }
        Ok(out)
    };
    (bodies_, Box::new(judge))
}

/// Multisets of per-thread sequences drawn from the given lists.
pub fn mix<T: Clone>(threads: usize, seqs: &[Vec<T>]) -> Vec<Vec<Vec<T>>> {
    fn go<T: Clone>(k: usize, from: usize, seqs: &[Vec<T>], cur: &mut Vec<Vec<T>>, out: &mut Vec<Vec<Vec<T>>>) {
        if k == 0 { out.push(cur.clone()); return }
        for i in from..seqs.len() { cur.push(seqs[i].clone()); go(k - 1, i, seqs, cur, out); cur.pop(); }
    }
    let mut out = vec![];
    go(threads, 0, seqs, &mut vec![], &mut out);
    out
}
pub fn seqs<T: Clone>(len: usize, ops: &[T]) -> Vec<Vec<T>> {
    let s = Seqs::new(ops.len(), len as u32, len as u32);
    (0..s.size()).map(|i| s.get(i).into_iter().map(|k| ops[k].clone()).collect()).collect()
}

fn family(name: &str, pres: &'static [usize], progs: Vec<Vec<Vec<Op>>>, bound: Bound) -> Family {
    let np = pres.len() as u64;
    Family::new(name, progs.len() as u64 * np, move |i, ctx| {
        let prog = &progs[(i / np) as usize];
        let pre = pres[(i % np) as usize];
        explore(&format!("before {:?}, threads {:?}", PRELUDES[pre], prog), &|| setup(pre, (0, 0), prog), bound, 400_000, ctx)
    }).chunk(2).patience(120)
}

/// Systems of every size: what happens at the point where a collection grows is no different.
fn filled(name: &str, fills: Vec<(usize, usize)>, progs: Vec<Vec<Vec<Op>>>, bound: Bound) -> Family {
    let np = fills.len() as u64;
    Family::new(name, progs.len() as u64 * np, move |i, ctx| {
        let prog = &progs[(i / np) as usize];
        let fill = fills[(i % np) as usize];
        explore(&format!("on a system of {} other symbols and {} other rules, threads {prog:?}", fill.0, fill.1), &|| setup(0, fill, prog), bound, 400_000, ctx)
    }).chunk(2).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> {
    let all = [Add(0), Add(1), AddText(2), Add(3), Add(4), AddSym(0), AddSym(5), Get(3), Rules, Symbols, Derive(0, 2), Derive(1, 3), Once(2)];
    let mid = [Add(0), Add(1), Add(2), Get(3), Derive(1, 2)];
    let adds = [Add(0), Add(1), Add(2), Add(3), AddSym(5), Derive(1, 2), Symbols];
    let tiny = [Add(0), Add(1), Derive(0, 2)];
    let mut v = vec![
        family("2 threads x 1 call, every schedule", &[0], mix(2, &seqs(1, &[Add(1), AddSym(5), Derive(0, 2), Rules])), Bound::None),
        family("2 threads x 1 call, all calls", &[0, 1, 2], mix(2, &seqs(1, &all)), Bound::Preemptions(tier.pick(2, 4))),
        family("2 threads x 2 calls, preemption bound 2", &[0], mix(2, &seqs(2, &mid)), Bound::Preemptions(2)),
        family("3 threads x 1 call, preemption bound 2", tier.pick(&[0], &[0, 1]), mix(3, &seqs(1, &mid)), Bound::Preemptions(2)),
    ];
    let sizes: Vec<usize> = (1..tier.pick(35, 70)).chain([62, 63, 64, 65]).collect();
    v.push(filled("2 threads x 1 call on systems with any number of symbols", sizes.iter().map(|n| (*n, 0)).collect(), mix(2, &seqs(1, &[Add(0), AddSym(4), AddSym(5)])), Bound::Preemptions(2)));
    v.push(filled("2 threads x 1 call on systems with any number of rules", sizes.iter().map(|n| (0, *n)).collect(), mix(2, &seqs(1, &[Add(0), Add(1), Derive(0, 1)])), Bound::Preemptions(tier.pick(1, 2))));
    if tier == Tier::Thorough {
        v.push(family("2 threads x 2 calls, preemption bound 2, all calls", &[0, 1], mix(2, &seqs(2, &all)), Bound::Preemptions(2)));
        v.push(family("2 threads x 2 calls, preemption bound 3", &[0, 2], mix(2, &seqs(2, &mid)), Bound::Preemptions(3)));
        v.push(family("3 threads x 1 call, preemption bound 3", &[0, 1], mix(3, &seqs(1, &adds)), Bound::Preemptions(3)));
        v.push(family("2 threads x 3 calls, preemption bound 2", &[0], mix(2, &seqs(3, &tiny)), Bound::Preemptions(2)));
        v.push(family("3 threads x 2 calls, preemption bound 2", &[0], mix(3, &seqs(2, &tiny)), Bound::Preemptions(2)));
        v.push(family("4 threads x 1 call, preemption bound 2", &[0, 1], mix(4, &seqs(1, &mid)), Bound::Preemptions(2)));
    }
    v
}

pub const PROPERTY: Property = Property {
    id: "C03", level: "model_checking",
    rule: "A case is one program (calls per thread on one System, calls made before, and how many symbols and rules the system has); every schedule within the bound is executed on the real code and its history is checked for a sequential explanation. Distinct states are distinct (program, all results) outcomes.",
    assumptions: &["sequentially consistent interleavings at synchronisation operations; weak memory orders are not modelled", "symbol names are interned before the threads start (C02 explores interning)", "the symbols of a rule being added may become visible one at a time before the rule does"],
    families,
};
