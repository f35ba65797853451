//! C02: concurrent interning, all schedules of small programs.
use crate::{engine::*, explore::*, lin::*, util::*};
use rusty_systems::symbols::{get_code, get_name, Symbol};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { A, B, SpaceA, NameA, BuildB, Text, TryCodes, Show, Far, Guess, Long, Other, Accent }
const ALL: [Op; 13] = [Op::A, Op::NameA, Op::B, Op::SpaceA, Op::BuildB, Op::Text, Op::TryCodes, Op::Show, Op::Far, Op::Guess, Op::Long, Op::Other, Op::Accent];
/// A code that no test hands out.
const FAR: u32 = u32::MAX - 7;

#[derive(Clone, Debug)]
enum Res { Code(&'static str, u32), Codes(Vec<(String, u32)>), Names(Vec<(u32, Option<String>)>), Guesses(Vec<(u32, Option<String>)>), Error(String) }

type Published = Arc<Mutex<Vec<(u32, String)>>>;

fn perform(op: Op, pub_: &Published) -> Res {
    let code = |name: &'static str, r: Result<u32, rusty_systems::prelude::Error>| match r {
        Ok(c) => { pub_.lock().unwrap().push((c, name.trim().to_string())); Res::Code(name, c) }
        Err(e) => Res::Error(e.to_string()),
    };
    match op {
        Op::A | Op::NameA => code("a", get_code("a")),
        Op::B => code("b", get_code("b")),
        Op::SpaceA => code(" a\t", get_code(" a\t")),
        // names of other lengths and other first letters
        Op::Long => code("bb", get_code("bb")),
        Op::Other => code("Qqqqqqqqqqqqqqqqq", get_code("Qqqqqqqqqqqqqqqqq")),
        Op::Accent => code("\u{e9}", Symbol::build("\u{e9}").map(|s| s.code())),
        Op::BuildB => code("b", Symbol::build("b").map(|s| s.code())),
        Op::Text => match rusty_systems::parser::parse_prod_string("b a b") {
            Ok(s) => {
                let v: Vec<(String, u32)> = ["b", "a", "b"].iter().map(|s| s.to_string()).zip(s.iter().map(|s| s.code())).collect();
                if s.len() != 3 { return Res::Error(format!("{} symbols from \"b a b\"", s.len())) }
                let mut p = pub_.lock().unwrap();
                for (n, c) in &v { p.push((*c, n.clone())) }
                Res::Codes(v)
            }
            Err(e) => Res::Error(e.to_string()),
        },
        Op::TryCodes => {
            let known: Vec<u32> = pub_.lock().unwrap().iter().map(|p| p.0).collect();
            Res::Names(known.into_iter().map(|c| (c, Symbol::try_from(c).ok().and_then(|s| s.name()))).collect())
        }
        Op::Far => match (get_name(FAR), Symbol::try_from(FAR).is_ok()) {
            (None, false) => Res::Guesses(vec![]),
            o => Res::Error(format!("code {FAR}, never handed out, has the name {:?} (is a symbol: {})", o.0, o.1)),
        },
        Op::Guess => {
            // codes that may be handed out while this runs
            let from = pub_.lock().unwrap().iter().map(|p| p.0 + 1).max().unwrap_or(100);
            Res::Guesses((from..from + 2).map(|c| (c, get_name(c))).collect())
        }
        Op::Show => {
            let known: Vec<u32> = pub_.lock().unwrap().iter().map(|p| p.0).collect();
            Res::Names(known.into_iter().map(|c| (c, Some(Symbol::from_code(c).to_string()))).collect())
        }
    }
}

/// What happened before the threads start.
const PRELUDES: [&str; 4] = ["nothing interned", "z interned", "a interned", "70 names interned"];
/// From this number on: how many names are interned.
const MANY: usize = 100;
fn prelude(k: usize) -> Vec<(u32, String)> {
    let names: Vec<String> = match k { MANY.. => (0..k - MANY).map(|i| format!("n{i}")).collect(), 1 => vec!["z".into()], 2 => vec!["a".into()], 3 => (0..70).map(|i| format!("n{i}")).collect(), _ => vec![] };
    names.into_iter().map(|n| (get_code(&n).expect("prelude"), n)).collect()
}

fn setup(pre: usize, prog: &[Vec<Op>]) -> (Vec<Body>, Judge) {
    let before = prelude(pre);
    let log: Log<Op, Res> = Arc::new(Mutex::new(vec![]));
    let published: Published = Arc::new(Mutex::new(
        // the threads look up only the first and the last of many names
        before.iter().take(1).chain(before.iter().skip(1).last()).cloned().collect()));
    let looked: Log<Op, Vec<(u32, String, Option<String>)>> = Arc::new(Mutex::new(vec![]));
    let bodies = prog.iter().cloned().enumerate().map(|(t, ops)| {
        let (log, published, looked) = (log.clone(), published.clone(), looked.clone());
        Box::new(move || for op in ops {
            call(&log, t, &op, || perform(op, &published));
            if op == Op::NameA {
                // as soon as a code is returned, its name can be looked up
                let known = published.lock().unwrap().clone();
                call(&looked, t, &op, || known.into_iter().map(|(c, n)| (c, n, get_name(c))).collect::<Vec<_>>());
            }
        }) as Body
    }).collect();
    let judge = move |_: &vctl::sched::Outcome| {
        let log = log.lock().unwrap();
        let mut code_of: HashMap<String, u32> = HashMap::new();
        let mut name_of: HashMap<u32, String> = HashMap::new();
        let mut pairs: Vec<(String, u32)> = before.iter().map(|(c, n)| (n.clone(), *c)).collect();
        let mut lookups: Vec<(u32, Option<String>)> = vec![];
        let mut guesses: Vec<(u32, String)> = vec![];
        let mut out = String::new();
        for r in log.iter() {
            match &r.res {
                Err(m) => return Err(format!("{:?} panicked: {m}", r.op)),
                Ok(Res::Error(e)) => return Err(format!("{:?} failed: {e}", r.op)),
                Ok(Res::Code(n, c)) => pairs.push((n.trim().to_string(), *c)),
                Ok(Res::Codes(v)) => pairs.extend(v.iter().cloned()),
                Ok(Res::Guesses(v)) => guesses.extend(v.iter().filter_map(|(c, n)| n.clone().map(|n| (*c, n)))),
                Ok(Res::Names(v)) => lookups.extend(v.iter().cloned()),
            }
            out.push_str(&format!("{}:{:?}={:?} ", r.thread, r.op, r.res));
        }
        for (n, c) in &pairs {
            if let Some(o) = code_of.insert(n.clone(), *c) { if o != *c { return Err(format!("name {n:?} got the codes {o} and {c}")) } }
            if let Some(o) = name_of.insert(*c, n.clone()) { if o != *n { return Err(format!("names {o:?} and {n:?} both got code {c}")) } }
        }
        for r in looked.lock().unwrap().iter() {
            match &r.res {
                Err(m) => return Err(format!("get_name panicked: {m}")),
                Ok(v) => for (c, n, got) in v { if got.as_ref() != Some(n) { return Err(format!("code {c} was returned for {n:?} but its name was {got:?} afterwards")) } },
            }
        }
        for (c, got) in &lookups {
            if got.as_ref() != name_of.get(c) { return Err(format!("code {c} was returned for {:?} but its name was {got:?} afterwards", name_of.get(c))) }
        }
        // a code that had a name before its call returned keeps that name
        for (c, n) in &guesses {
            if name_of.get(c) != Some(n) { return Err(format!("code {c} had the name {n:?} but was returned for {:?}", name_of.get(c))) }
        }
        // quiescent state
        for (n, c) in &pairs {
            if get_name(*c).as_ref() != Some(n) { return Err(format!("after all calls, the name of code {c} is {:?} instead of {n:?}", get_name(*c))) }
            match get_code(n) { Ok(k) if k == *c => {} o => return Err(format!("after all calls, the code of {n:?} is {o:?} instead of {c}")) }
        }
        let fresh = get_code("never seen before").map_err(|e| e.to_string())?;
        if name_of.contains_key(&fresh) { return Err(format!("a new name got the used code {fresh}")) }
        Ok(out)
    };
    (bodies, Box::new(judge))
}

fn program_name(pre: usize, p: &[Vec<Op>]) -> String { format!("[{}] {:?}", if pre >= MANY { format!("{} names interned", pre - MANY) } else { PRELUDES[pre].into() }, p) }

pub fn programs(threads: usize, per: usize, alphabet: &[Op]) -> Vec<Vec<Vec<Op>>> {
    // all multisets of per-thread sequences: threads are interchangeable
    let s = Seqs::new(alphabet.len(), per as u32, per as u32);
    let n = s.size();
    let mut out = vec![];
    let mut ix = vec![0u64; threads];
    loop {
        out.push(ix.iter().map(|i| s.get(*i).into_iter().map(|k| alphabet[k]).collect()).collect());
        let mut p = threads;
        loop {
            if p == 0 { return out }
            p -= 1;
            if ix[p] + 1 < n { let v = ix[p] + 1; for q in &mut ix[p..] { *q = v } break }
        }
    }
}

fn family(name: &str, pres: Vec<usize>, progs: Vec<Vec<Vec<Op>>>, bound: Bound, cap: u64) -> Family {
    let n = progs.len() as u64 * pres.len() as u64;
    let np = pres.len() as u64;
    Family::new(name, n, move |i, ctx| {
        let prog = &progs[(i / np) as usize];
        let pre = pres[(i % np) as usize];
        explore(&program_name(pre, prog), &|| setup(pre, prog), bound, cap, ctx)
    }).chunk(2).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> {
    let small = [Op::A, Op::NameA, Op::B, Op::TryCodes, Op::Guess];
    let tiny = [Op::A, Op::SpaceA, Op::B, Op::Long, Op::Other];
    let mut v = vec![
        family("2 threads x 1 call, every schedule", vec![0, 1, 2], programs(2, 1, &tiny), Bound::None, 200_000),
        family("2 threads x 1 call, preemption bound 3", vec![0, 1, 2, 3], programs(2, 1, &ALL), Bound::Preemptions(3), 200_000),
        family("2 threads x 1 call after any number of names, preemption bound 2", (0..tier.pick(35, 70)).chain([62, 63, 64, 65, 126, 127, 128]).map(|n| MANY + n).collect(), programs(2, 1, &[Op::NameA, Op::B, Op::Guess]), Bound::Preemptions(2), 200_000),
        family("2 threads x 2 calls, preemption bound 2", vec![0], programs(2, 2, &small), Bound::Preemptions(2), 200_000),
        family("3 threads x 1 call, preemption bound 2", vec![0], programs(3, 1, &[Op::A, Op::NameA, Op::B, Op::BuildB, Op::TryCodes, Op::Guess, Op::Far, Op::Long]), Bound::Preemptions(2), 200_000),
    ];
    if tier == Tier::Thorough {
        v.push(family("2 threads x 1 call, every schedule, warm registers", vec![1, 2, 3], programs(2, 1, &[Op::NameA, Op::B, Op::TryCodes]), Bound::None, 400_000));
        v.push(family("2 threads x 2 calls, preemption bound 2, all calls", vec![0, 2, 3], programs(2, 2, &ALL), Bound::Preemptions(2), 200_000));
        v.push(family("2 threads x 2 calls, preemption bound 3", vec![0], programs(2, 2, &small), Bound::Preemptions(3), 200_000));
        v.push(family("3 threads x 1 call, preemption bound 3", vec![0, 2], programs(3, 1, &small), Bound::Preemptions(3), 400_000));
        v.push(family("2 threads x 2 calls, preemption bound 2, names of several lengths", vec![0, 3], programs(2, 2, &[Op::NameA, Op::B, Op::Long, Op::Other, Op::Accent]), Bound::Preemptions(2), 200_000));
        v.push(family("2 threads x 3 calls, preemption bound 2", vec![0], programs(2, 3, &[Op::NameA, Op::B]), Bound::Preemptions(2), 200_000));
        v.push(family("3 threads x 2 calls, preemption bound 2", vec![1], programs(3, 2, &[Op::A, Op::B]), Bound::Preemptions(2), 200_000));
        v.push(family("4 threads x 1 call, preemption bound 2", vec![0], programs(4, 1, &[Op::NameA, Op::B, Op::TryCodes]), Bound::Preemptions(2), 200_000));
    }
    v
}

pub const PROPERTY: Property = Property {
    id: "C02", level: "model_checking",
    rule: "A case is one program (calls per thread, and what was interned before); every schedule of it within the bound is executed on the real code from a fresh process. Distinct states are distinct (program, results of all calls) outcomes.",
    assumptions: &["sequentially consistent interleavings at synchronisation operations (locks, atomics, once cells); weak memory orders are not modelled", "the crate has no unsafe code, so accesses outside synchronisation operations are race-free by typing"],
    families,
};
