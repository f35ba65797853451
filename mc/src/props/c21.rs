//! C21: the same texts give the same results, whatever happened before and wherever they run.
use crate::{engine::*, util::*};
use rusty_systems::interpretation::abop::{abop_family, parser::parse, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser::{parse_and_add_production, parse_prod_string, parse_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionStore};
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::{derive, derive_once, family, find_matching};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write;
use std::sync::atomic::Ordering::Relaxed;

/// Everything visible of these texts' results, as text.
fn observe(rules: &[&str], axioms: &[&str]) -> String {
    let mut o = String::new();
    let sys = AbopTurtleInterpretation::system().expect("system");
    let mut list: Vec<Production> = vec![];
    let cells = (RefCell::new(HashSet::<u32>::new()), RefCell::new(Vec::<Production>::new()));
    for r in rules {
        match sys.add_production(*r) { Ok(p) => write!(o, "[{} {}]", p.head().target(), p.all_bodies().len()).unwrap(), Err(e) => write!(o, "[{e}]").unwrap() }
        if let Ok(p) = parse_production(r) { list.push(p) }
        let _ = parse_and_add_production(&cells.0, &cells.1, r);
    }
    write!(o, " {} symbols {} rules {} {}", sys.symbol_len(), sys.production_len(), cells.0.borrow().len(), cells.1.borrow().len()).unwrap();
    for a in axioms {
        let Ok(s) = parse_prod_string(a) else { o += " bad axiom"; continue };
        write!(o, "\n{a}: {s} ({})", s.len()).unwrap();
        for i in 0..s.len() + 1 { write!(o, " {:?}", find_matching(&list, &s, i).map(|p| p.head().target().to_string())).unwrap() }
        let mut last = s.clone();
        for n in 0..4 {
            let one = sys.derive(s.clone(), RunSettings::for_max_iterations(n));
            let two = derive(s.clone(), &list, RunSettings::for_max_iterations(n));
            for r in [&one, &two] { match r { Ok(s) => write!(o, " | {s}").unwrap(), Err(e) => write!(o, " | {e}").unwrap() } }
            for r in [sys.derive_once(last.clone()), derive_once(last.clone(), &list)] { match r { Ok(s) => { write!(o, " | {s}").unwrap(); last = s } Err(e) => write!(o, " | {e}").unwrap() } }
            if let Ok(s) = one {
                let t = AbopTurtleInterpretation::new(n, 22.5);
                match t.interpret(&sys, &s) { Ok(p) => for p in p { for q in p.iter() { write!(o, " {},{}", q.x(), q.y()).unwrap() } o += ";" }, Err(e) => write!(o, " {e}").unwrap() }
                match t.interpret(&cells.0, &s) { Ok(p) => write!(o, " {}", p.len()).unwrap(), Err(e) => write!(o, " {e}").unwrap() }
                match SvgPathInterpretation::new_with(300, 200, t).interpret(&sys, &s) { Ok(d) => o += &d.to_svg(), Err(e) => write!(o, " {e}").unwrap() }
            }
        }
        let text = format!("initial: {a}\ndelta = 30\n{}", rules.join("\n"));
        match parse(&text) {
            Ok((i, s, a)) => { let r = s.derive(a, i.run_settings()); match r { Ok(r) => { write!(o, " {r}").unwrap(); match SvgPathInterpretation::new_with(50, 60, i).interpret(&s, &r) { Ok(d) => o += &d.to_svg(), Err(e) => write!(o, " {e}").unwrap() } } Err(e) => write!(o, " {e}").unwrap() } }
            Err(e) => write!(o, " {e}").unwrap(),
        }
    }
    o
}

const RULES: [&str; 13] = ["A -> A B", "B -> A", "A < B -> Forward", "A > B -> [ + A ]", "A -> Forward - A", "Forward -> Forward Forward", "A A < B > A -> B B", "B ->", "[ -> [ A", "Forward < A > B -> X", "+ -> + B", "A B < A -> Move", "X -> A B X"];
const AXIOMS: [&str; 3] = ["A B A", "A [ B + Forward A B ]", "Forward X B A A B A"];
const NAMES: [&str; 5] = ["A", "B", "Forward", "+", "["];

/// Something that happens before.
fn event(k: usize, rules: &[&str]) {
    let quiet = |r: Result<Production, Error>| drop(r);
    match k {
        0 => for i in 0..300 { let _ = get_code(&format!("junk {i}")); },
        1 => for r in rules.iter().rev() { for n in r.split_whitespace().rev() { let _ = get_code(n); } },
        2 => { // other rules for the same names, in use
            let s = System::new();
            for r in ["A -> B B", "B -> A", "Forward -> X", "A > B -> A", "] -> ["] { quiet(s.add_production(r)) }
            let _ = s.derive(parse_prod_string("A B Forward ] [").unwrap(), RunSettings::for_max_iterations(3));
        }
        3 => { let _ = family::register(abop_family()); let _ = family::get_or_init_family("other", || SystemFamily::define().with_terminal("A", Some("x")).with_terminal("Forward", None).build("other").unwrap()); let _ = System::of_family("other"); }
        4 => for n in [" a", "A ", "\u{feff}A", "forward", "FORWARD", "", "A\u{301}", "[ [", "+-"] { let _ = get_code(n); let _ = Symbol::build(n); },
        5 => for t in ["-> A", "A B -> C", "A -> 7 B", "", "A <", "A -> 0 B", "n = x", "initial: <"] { quiet(parse_production(t)); let _ = parse_prod_string(t); let _ = parse(t); },
        6 => { drop(observe(rules, &AXIOMS[..1])) }
        7 => { // drawings with stores that lack or share the turtle's symbols
            let c = RefCell::new(HashSet::<u32>::new());
            for n in ["Forward", "]", "A"] { let _ = c.add_symbol(n); }
            let s = parse_prod_string("Forward + [ A ] Forward").unwrap();
            let _ = AbopTurtleInterpretation::default().interpret(&c, &s);
            let _ = SvgPathInterpretation::new_with(3, 4, AbopTurtleInterpretation::new(1, 90.0)).interpret(&System::new(), &s);
        }
        8 => { let s = System::new(); for r in ["A -> 0.5 A", "A -> B", "B -> 0.9 A", "B -> 0.9 B"] { quiet(s.add_production(r)) } for _ in 0..3 { let _ = s.derive(parse_prod_string("A A A B").unwrap(), RunSettings::for_max_iterations(2)); } }
        9 => for i in 0..200u32 { let _ = get_name(i); let _ = Symbol::try_from(i); },
        10 => { let _ = std::thread::spawn(|| { let _ = get_code("B"); let _ = get_code("from a thread"); }).join(); }
        _ => { let _ = std::thread::spawn(|| { let _ = quiet_panic(); }).join(); }
    }
}
const EVENTS: usize = 12;
/// A panic of someone else's, in a thread that uses the library.
fn quiet_panic() -> Result<(), String> { quiet(|| { let s = System::new(); let _ = s.add_production("A -> B"); panic!("on purpose") }) }

fn same(base: &[u8], other: Result<Vec<u8>, String>, input: impl Fn() -> String) -> Case {
    match other {
        Err(e) => fail(input(), e),
        Ok(o) if o == base => Ok(()),
        Ok(o) => {
            let at = o.iter().zip(base).position(|(a, b)| a != b).unwrap_or(o.len().min(base.len()));
            let cut = |v: &[u8]| show(&String::from_utf8_lossy(&v[at.saturating_sub(60)..(at + 60).min(v.len())]));
            fail(input(), format!("gives {} where a fresh process gives {}", cut(&o), cut(base)))
        }
    }
}

fn rule_pair(i: u64) -> Vec<&'static str> {
    let n = RULES.len() as u64;
    let (a, b) = (i / n, i % n);
    let head = |k: u64| RULES[k as usize].split("->").next().unwrap();
    // two rules with one head are one rule with two alternatives
    if head(a) == head(b) { vec![RULES[a as usize]] } else { vec![RULES[a as usize], RULES[b as usize]] }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut v = vec![];
    for p in permutations(n - 1) { for k in 0..n { let mut q = p.clone(); q.insert(k, n - 1); v.push(q) } }
    v
}

fn orders(tier: Tier) -> Family {
    let perms = permutations(NAMES.len());
    let pairs = (RULES.len() * RULES.len()) as u64;
    let step = tier.pick(3, 1);
    Family::new("every order of interning the symbols first", pairs / step, move |i, ctx| {
        let rules = rule_pair(i * step);
        let base = in_child(60, || observe(&rules, &AXIOMS).into_bytes()).or_else(|e| fail(rules.join("; "), e))?;
        for p in &perms {
            let other = in_child(60, || { for k in p { let _ = get_code(NAMES[*k]); } observe(&rules, &AXIOMS).into_bytes() });
            same(&base, other, || format!("{} after interning {}", rules.join("; "), p.iter().map(|k| NAMES[*k]).collect::<Vec<_>>().join(" ")))?;
            ctx.beat();
        }
        ctx.done(hash(&rules), perms.len() as u64);
        ctx.sample(|| rules.join("; "));
        Ok(())
    })
}

fn histories(tier: Tier) -> Family {
    let pairs = (RULES.len() * RULES.len()) as u64;
    let s = Seqs::new(EVENTS, 1, 2);
    let step = tier.pick(8, 1);
    Family::new("every history of up to two earlier events", pairs.div_ceil(step), move |i, ctx| {
        let rules = rule_pair(i * step);
        let base = in_child(60, || observe(&rules, &AXIOMS).into_bytes()).or_else(|e| fail(rules.join("; "), e))?;
        for h in 0..s.size() {
            let ev = s.get(h);
            let other = in_child(60, || { for e in &ev { event(*e, &rules) } observe(&rules, &AXIOMS).into_bytes() });
            same(&base, other, || format!("{} after events {ev:?}", rules.join("; ")))?;
            ctx.beat();
        }
        ctx.done(hash(&rules), s.size());
        Ok(())
    })
}

fn long_histories(tier: Tier) -> Family {
    let s = Seqs::new(EVENTS, tier.pick(3, 3), tier.pick(3, 4));
    Family::new("every longer history of events", s.size(), move |i, ctx| {
        let ev = s.get(i);
        let rules = [["A -> Forward - A", "A < B -> Forward", "X -> A B X"], ["A -> A B", "B ->", "Forward < A > B -> X"]][(i % 2) as usize];
        let base = in_child(60, || observe(&rules, &AXIOMS).into_bytes()).or_else(|e| fail(rules.join("; "), e))?;
        let other = in_child(60, || { for e in &ev { event(*e, &rules) } observe(&rules, &AXIOMS).into_bytes() });
        same(&base, other, || format!("{} after events {ev:?}", rules.join("; ")))?;
        ctx.done(hash(&ev), ev.len() as u64);
        Ok(())
    })
}

fn seeds(tier: Tier) -> Family {
    let pairs = (RULES.len() * RULES.len()) as u64;
    let n = tier.pick(24, 128);
    Family::new("hash seeds", pairs, move |i, ctx| {
        let rules = rule_pair(i);
        let run = |seed: u64| in_child(60, || {
            crate::ENTROPY.store(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15), Relaxed);
            // hash maps ask once per thread: a new thread asks again
            std::thread::scope(|s| s.spawn(|| observe(&rules, &AXIOMS).into_bytes()).join()).unwrap_or_else(|_| panic!("{}", panic_text()))
        });
        let base = in_child(60, || observe(&rules, &AXIOMS).into_bytes()).or_else(|e| fail(rules.join("; "), e))?;
        for seed in 1..=n { same(&base, run(seed), || format!("{} with hash seed {seed}", rules.join("; ")))?; ctx.beat() }
        ctx.done(hash(&rules), n);
        Ok(())
    })
}

fn placements() -> Family {
    let pairs = (RULES.len() * RULES.len()) as u64;
    Family::new("other threads, other texts in between, and again", pairs, move |i, ctx| {
        let rules = rule_pair(i);
        let mut back = rules.clone();
        back.reverse();
        let base = in_child(60, || observe(&rules, &AXIOMS).into_bytes()).or_else(|e| fail(rules.join("; "), e))?;
        let thread = |f: Box<dyn FnOnce() -> String + Send + '_>| std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|_| panic!("in a thread: {}", panic_text()));
        for k in 0..6 {
            let other = in_child(60, || match k {
                0 => { observe(&rules, &AXIOMS); observe(&rules, &AXIOMS) }
                1 => thread(Box::new(|| observe(&rules, &AXIOMS))),
                2 => { observe(&back, &AXIOMS); thread(Box::new(|| observe(&rules, &AXIOMS))) }
                3 => { thread(Box::new(|| observe(&RULES, &AXIOMS))); observe(&rules, &AXIOMS) }
                4 => { let mut all: Vec<String> = vec![]; for _ in 0..3 { all.push(thread(Box::new(|| observe(&rules, &AXIOMS)))); event(2, &rules) } all.dedup(); if all.len() == 1 { all.remove(0) } else { "differs between threads".into() } }
                _ => { for a in AXIOMS { observe(&RULES[..7], &[a]); } observe(&rules, &AXIOMS) }
            }.into_bytes());
            same(&base, other, || format!("{} (placement {k})", rules.join("; ")))?;
        }
        ctx.done(hash(&rules), 6);
        Ok(())
    })
}

/// One small thing to ask of the library, with an answer that depends on nothing else.
fn question(k: usize) -> (String, Box<dyn Fn() -> String>) {
    const STORES: [&[&str]; 7] = [&[], &["Forward"], &["Move", "+", "-"], &["[", "]", "Forward", "+"], &["Forward", "Move", "+", "-", "[", "]", "X"], &["X", "a"], &["forward", "F", "+"]];
    const DRAWN: [&str; 5] = ["Forward", "Forward + Move - Forward", "[ Forward ] Move Forward", "a F forward X", "] Forward"];
    const STRINGS: [&str; 4] = ["A", "A B A", "[ A ] é", "-> ; A"];
    const HEADS: [&str; 10] = ["A -> B", "A -> B A", "A -> A", "A < A -> B", "A -> 0.5 B", "A -> 1.5 B", "B -> A", "B > A -> A A", "-> A", "A -> "];
    const PLANTS: [&str; 6] = ["initial: A\nA -> A B", "n = 1\ninitial: Forward\nForward -> + Forward", "n = 3\ndelta = 90\ninitial: A\nA -> Forward A", "n = x\ninitial: A\nA -> B", "initial: A", "initial: ]\nA -> B"];
    const NAMES: [&str; 4] = ["A", "Forward", " ", "no such é"];
    let points = |r: Result<Vec<rusty_systems::geometry::Path>, Error>| match r { Ok(v) => v.iter().map(|p| p.iter().map(|q| format!("{},{}", q.x(), q.y())).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("; "), Err(e) => e.to_string() };
    let (a, b, c, d, e) = (STORES.len() * DRAWN.len() * 2, STRINGS.len(), HEADS.len() * STRINGS.len(), PLANTS.len(), NAMES.len());
    let mut k = k;
    if k < a {
        let (store, s, cell) = (STORES[k / 2 % 7], DRAWN[k / 14], k % 2 == 0);
        return (format!("draws {s:?} with a {} of {store:?}", if cell { "RefCell" } else { "System" }), Box::new(move || {
            let s = parse_prod_string(s).expect("string");
            let t = AbopTurtleInterpretation::new(1, 30.0);
            if cell { let c = RefCell::new(HashSet::<u32>::new()); for n in store { let _ = c.add_symbol(*n); } points(t.interpret(&c, &s)) }
            else { let c = System::new(); for n in store { c.add_symbol(*n).expect("symbol"); } format!("{} {:?}", points(t.interpret(&c, &s)), SvgPathInterpretation::new_with(30, 40, t).interpret(&c, &s).map(|d| d.to_svg()).map_err(|e| e.to_string())) }
        }));
    }
    k -= a;
    if k < b { let t = STRINGS[k]; return (format!("reads {t:?}"), Box::new(move || match parse_prod_string(t) { Ok(s) => format!("{s} {}", s.len()), Err(e) => e.to_string() })) }
    k -= b;
    if k < c {
        let (r, t) = (HEADS[k / STRINGS.len()], STRINGS[k % STRINGS.len()]);
        return (format!("rewrites {t:?} with {r:?}"), Box::new(move || {
            let s = System::new();
            let p = match s.add_production(r) { Ok(p) => p, Err(e) => return e.to_string() };
            let Ok(x) = parse_prod_string(t) else { return "no string".into() };
            let one = s.derive_once(x.clone()).map(|s| s.to_string()).map_err(|e| e.to_string());
            let more = derive(x.clone(), &[p.clone()], 3.into()).map(|s| s.to_string()).map_err(|e| e.to_string());
            format!("{one:?} {more:?} {} {}", s.symbol_len(), p.matches(&x, 0))
        }));
    }
    k -= c;
    if k < d { let t = PLANTS[k]; return (format!("reads and runs the plant {t:?}"), Box::new(move || match parse(t) { Ok((i, s, x)) => match s.derive(x, i.run_settings()) { Ok(r) => format!("{r} {}", points(i.interpret(&s, &r))), Err(e) => e.to_string() }, Err(e) => e.to_string() })) }
    k -= d;
    if k < e { let t = NAMES[k]; return (format!("interns {t:?}"), Box::new(move || format!("{:?}", Symbol::build(t).map(|s| (s.to_string(), s.name(), get_name(s.code()))).map_err(|e| e.to_string())))) }
    k -= e;
    ("makes a system".into(), Box::new(move || match k { 0 => { let s = System::new(); format!("{} {}", s.symbol_len(), s.production_len()) } 1 => AbopTurtleInterpretation::system().map(|s| format!("{} {}", s.symbol_len(), s.production_len())).unwrap_or_default(), _ => format!("{:?}", abop_family().name()) }))
}
const QUESTIONS: usize = 7 * 5 * 2 + 4 + 40 + 6 + 4 + 3;

/// Every question after every other: it gets the answer it gets alone in a fresh process.
fn after_one_another() -> Family {
    let n = QUESTIONS as u64;
    Family::new("every question after every other one, on one thread", n, move |i, ctx| {
        let (name, ask) = question(i as usize);
        let base = in_child(60, || ask().into_bytes()).or_else(|e| fail(name.clone(), e))?;
        for j in 0..n {
            let (first, other) = question(j as usize);
            let r = in_child(60, || { let _ = other(); let _ = other(); ask().into_bytes() });
            same(&base, r, || format!("{name}, on a thread that first {first}"))?;
            ctx.trans(1);
        }
        // after all of them, and after itself
        let r = in_child(60, || { for j in 0..QUESTIONS { let _ = question(j).1(); } ask().into_bytes() });
        same(&base, r, || format!("{name}, after everything else"))?;
        let r = in_child(60, || { let _ = ask(); for j in (0..QUESTIONS).rev() { let _ = question(j).1(); } ask().into_bytes() });
        same(&base, r, || format!("{name}, once more after everything else"))?;
        ctx.done(i, 2);
        Ok(())
    }).chunk(1)
}

/// Symbols whose codes are any distance apart: what one of them means must not rub off on another.
fn distances(tier: Tier) -> Family {
    let n = tier.pick(140_000, 1_100_000);
    const OFFSETS: [usize; 5] = [0, 1, 27, 155, 1000];
    Family::new("symbols whose codes are any distance apart", OFFSETS.len() as u64 * 7, move |i, ctx| {
        let (offset, kind) = (OFFSETS[i as usize / 7], i % 7);
        let r = in_child(300, || {
            let quick = |t: &str| Symbol::build(t).expect("symbol");
            for k in 0..offset { quick(&format!("before {k}")); }
            // the symbols with a meaning, then the ladder
            let first: Vec<Symbol> = ["Forward", "Move", "+", "-", "[", "]", "X", "base", "T", "out"].iter().map(|n| quick(n)).collect();
            let (base, t, out) = (first[7], first[8], first[9]);
            let ladder: Vec<Symbol> = (0..n).map(|k| quick(&format!("l{k}"))).collect();
            let string = |v: &[Symbol]| ProductionString::from(v.to_vec());
            let system = AbopTurtleInterpretation::system().expect("system");
            let all = string(&[&ladder[..], &[base], &ladder[..]].concat());
            let say = |m: String| m.into_bytes();
            match kind {
                0 => {
                    // one rule, one symbol that it is about
                    let rule = system.add_production("base -> out T").expect("rule");
                    let want = string(&[&ladder[..], &[out, t], &ladder[..]].concat());
                    for got in [system.derive_once(all.clone()), derive_once(all.clone(), &[rule.clone()]), system.derive(all.clone(), 1.into()), derive(all.clone(), &[rule], 3.into())] {
                        if got.as_ref().ok() != Some(&want) { return say(format!("rewrites more than its symbol: {:?} symbols", got.map(|g| g.len()))) }
                    }
                    // and no rule about any of them
                    let got = system.derive(string(&ladder), 2.into());
                    if got.ok() != Some(string(&ladder)) { return say("rewrites a symbol without a rule".into()) }
                    system.add_production("T -> base").expect("rule");
                    if system.derive_once(all.clone()).ok() != Some(want) { return say("with two rules, rewrites more than their symbols".into()) }
                }
                1 => {
                    let (l, r) = (parse_production("base < T -> out").expect("rule"), parse_production("T > base -> out").expect("rule"));
                    for x in &ladder {
                        if l.matches(&string(&[*x, t]), 1) || r.matches(&string(&[t, *x]), 0) || l.matches(&string(&[base, *x]), 1) { return say(format!("{x} passes for a rule's symbol")) }
                    }
                    if !l.matches(&string(&[base, t]), 1) || !r.matches(&string(&[t, base]), 0) { return say("no longer matches".into()) }
                }
                2 => {
                    // the turtle knows only its own
                    for (v, lines) in [(ladder.clone(), 0), ([&ladder[..], &first[..1], &ladder[..], &first[..1]].concat(), 2)] {
                        for s in &ladder[..2000.min(n)] { system.add_symbol(*s).expect("symbol"); }
                        let p = AbopTurtleInterpretation::new(1, 90.0).interpret(&system, &string(&v)).expect("drawing");
                        let drawn: usize = p.iter().map(|p| p.len() - 1).sum();
                        if drawn != lines { return say(format!("draws {drawn} lines instead of {lines}")) }
                        let last = p.last().and_then(|p| p.iter().last().copied()).unwrap_or_default();
                        if last.x().abs() > 1e-9 || (last.y() - 5.0 * lines as f64).abs() > 1e-9 { return say(format!("ends at {last}")) }
                    }
                }
                3 => {
                    // a store finds only what was added
                    let (s, c) = (System::new(), RefCell::new(HashSet::<u32>::new()));
                    for x in ladder.iter().step_by(2) { s.add_symbol(*x).expect("symbol"); c.add_symbol(*x).expect("symbol"); }
                    if s.symbol_len() != n.div_ceil(2) { return say(format!("{} symbols after adding {}", s.symbol_len(), n.div_ceil(2))) }
                    for (k, x) in ladder.iter().enumerate() {
                        let name = format!("l{k}");
                        let want = if k % 2 == 0 { Some(*x) } else { None };
                        if s.get_symbol(&name) != want || c.get_symbol(&name) != want { return say(format!("{name} found: {:?} and {:?}", s.get_symbol(&name), c.get_symbol(&name))) }
                    }
                }
                4 => {
                    // every head is a rule of its own
                    let s = System::new();
                    let m = n.min(tier.pick(3000, 12_000));
                    let step = n / m;
                    for (k, x) in ladder.iter().step_by(step).enumerate() {
                        let p = s.add_production(format!("{x} -> T {x}")).expect("rule");
                        if s.production_len() != k + 1 || p.all_bodies().len() != 1 { return say(format!("the rule of {x} became {} of {} rules with {} alternatives", k + 1, s.production_len(), p.all_bodies().len())) }
                    }
                    let want: Vec<Symbol> = ladder.iter().step_by(step).flat_map(|x| [t, *x]).collect();
                    let got = s.derive_once(string(&ladder.iter().step_by(step).copied().collect::<Vec<_>>()));
                    if got.ok() != Some(string(&want)) { return say("symbols are rewritten by another's rule".into()) }
                }
                6 => {
                    // both alternatives of a rule are taken, whatever the codes of their symbols
                    let (lo, hi) = (1u64 << 62, 3u64 << 62);
                    for x in &ladder {
                        let mut p = Production::new(parse_production("base -> out").expect("rule").head().clone(), rusty_systems::productions::ProductionBody::new(string(&[t])));
                        p.add_body(rusty_systems::productions::ProductionBody::new(string(&[*x])));
                        let taken = |w: u64| crate::draws::with_words(vec![w], || p.body().map(|b| b.string().symbols().first().copied()).ok().flatten()).0;
                        let (a, b) = (taken(lo), taken(hi));
                        let both = |a: Option<Symbol>, b: Option<Symbol>| a != b && [a, b].iter().all(|s| *s == Some(t) || *s == Some(*x));
                        if both(a, b) { continue }
                        // perhaps only the words are spent otherwise
                        vctl::rng::set(vctl::rng::Mode::Free);
                        let seen: HashSet<Option<u32>> = (0..200).map(|_| p.body().ok().and_then(|b| b.string().symbols().first().map(|s| s.code()))).collect();
                        if seen != HashSet::from([Some(t.code()), Some(x.code())]) { return say(format!("of the alternatives T and {x} only {} are ever taken", seen.len())) }
                    }
                }
                _ => {
                    let mut seen = HashSet::new();
                    for (k, x) in ladder.iter().enumerate() {
                        let name = format!("l{k}");
                        if !seen.insert(x.code()) || *x == base || get_name(x.code()).as_deref() != Some(&name) || get_code(&name).ok() != Some(x.code()) || Symbol::try_from(x.code()).ok() != Some(*x) || x.to_string() != name { return say(format!("{name} has a code or name that is not its own")) }
                    }
                    if string(&ladder) == string(&ladder.iter().rev().copied().collect::<Vec<_>>()) { return say("equals its reverse".into()) }
                }
            }
            vec![]
        });
        let input = || format!("{n} symbols interned after {} others, kind {kind}", offset + 10);
        match r { Ok(m) if m.is_empty() => {} Ok(m) => return fail(input(), String::from_utf8_lossy(&m)), Err(m) => return fail(input(), m) }
        ctx.done(hash(&i), n as u64);
        Ok(())
    }).patience(310).chunk(1)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![orders(tier), histories(tier), long_histories(tier), seeds(tier), placements(), after_one_another(), distances(tier)] }

pub const PROPERTY: Property = Property {
    id: "C21", level: "model_checking",
    rule: "Every pair of rules of the pool, each in a fresh process as the baseline and then in processes with every order of interning the symbols, every history of earlier events up to the depth, many hash seeds (the engine answers the requests for entropy), other threads and repetitions; everything visible must be byte for byte the same. Besides, tens of thousands of symbols (codes any distance apart) among which one has a meaning. Distinct states are distinct (rules, history) pairs.",
    assumptions: &["rules with one alternative each", "nobody else registers a family called ABOP"],
    families,
};
