//! C04: the family registry, all histories of a few calls and all schedules of small programs.
use crate::{engine::*, explore::*, lin::*, util::*};
use crate::props::c03::{mix, seqs};
use rusty_systems::prelude::*;
use rusty_systems::system::family::{self, TryIntoFamily};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Get(u8),
    Exists(u8),
    Resolve(u8),
    /// register a family with this name through the free function
    Register(u8),
    /// ... through the builder
    Build(u8),
    GetOrInit(u8),
    /// asks for the first name with a default that calls itself by the second
    GetOrInitAs(u8, u8),
    /// a name that is only white space
    BuildBlank,
    Abop,
    /// as `Register`, `Build` and `GetOrInit`, of a family without any symbol
    Bare(u8),
    BareBuild(u8),
    BareInit(u8),
    /// as `Register`, of a family that has only productions
    Producing(u8),
}
use Op::*;
/// names that differ in case, white space or prefix are different names
const NAMES: [&str; 5] = ["F", "f", " F", "FF", "ABOP"];

static TAG: AtomicU32 = AtomicU32::new(1);
fn tag() -> String { format!("tag{}", TAG.fetch_add(1, SeqCst)) }
fn make(name: &str, tag: &str) -> SystemFamily { SystemFamily::define().with_terminal(tag, None).with_production("p", Some("q")).build(name).expect("build") }
/// Which family is it: its tag (the one terminal), its name and its identity.
type Id = (String, String, usize);
fn id(f: &Arc<SystemFamily>) -> Id {
    let mut t: Vec<String> = f.terminals().map(|s| s.name.clone()).chain(f.productions().map(|s| s.name.clone()).filter(|n| n.starts_with("tag"))).collect();
    t.sort();
    (t.join(","), f.name().clone(), Arc::as_ptr(f) as usize)
}

#[derive(Clone, Debug)]
enum Res { Family(Option<Id>), Bool(bool), /// the tag offered, and what came of it; for get-or-init also whether the default was built
    Made { offered: String, got: Option<Id>, built: Option<u32> }, Rejected(bool), Alphabet(Result<usize, String>) }

fn perform(op: Op, keep: &Mutex<Vec<Arc<SystemFamily>>>) -> Res {
    // families stay alive to the end, so that addresses identify them
    let hold = |f: Arc<SystemFamily>| { let i = id(&f); keep.lock().unwrap().push(f); i };
    match op {
        Get(n) => Res::Family(family::get_family(NAMES[n as usize]).map(hold)),
        Resolve(n) => Res::Family(NAMES[n as usize].into_family().ok().map(hold)),
        Exists(n) => Res::Bool(family::family_exists(NAMES[n as usize])),
        Register(n) => { let t = tag(); Res::Made { got: family::register(make(NAMES[n as usize], &t)).ok().map(hold), offered: t, built: None } }
        Build(n) => {
            let t = tag();
            let b = SystemFamily::define().with_terminal(t.as_str(), None).with_production("p", Some("q"));
            Res::Made { got: b.register(NAMES[n as usize]).ok().map(hold), offered: t, built: None }
        }
        GetOrInit(n) => {
            let t = tag();
            let mut built = 0;
            let f = family::get_or_init_family(NAMES[n as usize], || { built += 1; make(NAMES[n as usize], &t) });
            Res::Made { got: Some(hold(f)), offered: t, built: Some(built) }
        }
        GetOrInitAs(n, m) => {
            let t = tag();
            let mut built = 0;
            let f = family::get_or_init_family(NAMES[n as usize].to_string(), || { built += 1; make(NAMES[m as usize], &t) });
            Res::Made { got: Some(hold(f)), offered: t, built: Some(built) }
        }
        Bare(n) => Res::Made { got: family::register(SystemFamily::define().build(NAMES[n as usize]).expect("build")).ok().map(hold), offered: String::new(), built: None },
        BareBuild(n) => Res::Made { got: SystemFamily::define().register(NAMES[n as usize]).ok().map(hold), offered: String::new(), built: None },
        BareInit(n) => {
            let mut built = 0;
            let f = family::get_or_init_family(NAMES[n as usize], || { built += 1; SystemFamily::define().build(NAMES[n as usize]).expect("build") });
            Res::Made { got: Some(hold(f)), offered: String::new(), built: Some(built) }
        }
        Producing(n) => { let t = tag(); Res::Made { got: family::register(SystemFamily::define().with_production(t.as_str(), None).build(NAMES[n as usize]).expect("build")).ok().map(hold), offered: t, built: None } }
        BuildBlank => {
            let a = SystemFamily::define().register("").is_err();
            let b = SystemFamily::define().with_terminal("x", None).build(" \t").is_err();
            let c = SystemFamily::define().register(" \u{a0}\n").is_err();
            let d = family::get_family("").is_none() && family::get_family(" \u{a0}\n").is_none();
            Res::Rejected(a && b && c && d)
        }
        Abop => Res::Alphabet(<rusty_systems::interpretation::abop::AbopTurtleInterpretation as Interpretation>::system().map(|s| s.symbol_len()).map_err(|e| e.to_string())),
    }
}

type State = BTreeMap<u8, Id>;
/// The tag of the family which the turtle's system registers, until it is seen.
const TURTLE: &str = "*";
/// Is the family registered under name `n` the one seen? The first sight of the turtle's family fixes its identity.
fn same(s: &mut State, n: u8, f: &Id) -> bool {
    match s.get(&n) {
        Some(g) if g.0 == TURTLE => { let ok = !f.0.starts_with("tag") && f.1 == g.1; s.insert(n, f.clone()); ok }
        g => g == Some(f),
    }
}
#[derive(Debug)]
struct Effect(Op, Res);
fn apply(s: &mut State, e: &Effect) -> bool {
    match (&e.0, &e.1) {
        (Get(n) | Resolve(n), Res::Family(None)) => !s.contains_key(n),
        (Get(n) | Resolve(n), Res::Family(Some(f))) => same(s, *n, f),
        (Exists(n), Res::Bool(b)) => s.contains_key(n) == *b,
        (Register(n) | Build(n) | Bare(n) | BareBuild(n) | Producing(n), Res::Made { offered, got, .. }) => match (s.get(n), got) {
            (Some(_), None) => true,
            (None, Some(g)) => { let ok = g.0 == *offered && g.1 == NAMES[*n as usize]; s.insert(*n, g.clone()); ok }
            _ => false,
        },
        (GetOrInit(n) | BareInit(n), Res::Made { offered, got: Some(g), built: Some(b) }) => match s.contains_key(n) {
            true => same(s, *n, g) && *b == 0,
            false => { let ok = g.0 == *offered && g.1 == NAMES[*n as usize] && *b == 1; s.insert(*n, g.clone()); ok }
        },
        (GetOrInitAs(n, m), Res::Made { offered, got: Some(g), built: Some(b) }) => match s.contains_key(n) {
            true => same(s, *n, g) && *b == 0,
            false => { let ok = g.0 == *offered && g.1 == NAMES[*m as usize] && *b == 1; s.insert(*n, g.clone()); ok }
        },
        (BuildBlank, Res::Rejected(ok)) => *ok,
        // the turtle's system registers its own family under its name unless one is there
        (Abop, Res::Alphabet(Ok(n))) => match s.get(&4) {
            Some(f) => if f.0.starts_with("tag") { *n == 2 } else { *n == 7 },
            None => { s.insert(4, (TURTLE.into(), "ABOP".into(), 0)); *n == 7 }
        },
        _ => false,
    }
}

fn judge(log: &[Rec<Op, Res>]) -> Result<String, String> {
    let mut steps = vec![];
    for r in log {
        match &r.res {
            Err(m) => return Err(format!("{:?} panicked: {m}", r.op)),
            Ok(x) => steps.push(Step { start: r.start, end: r.end, after: vec![], effect: Effect(r.op, x.clone()) }),
        }
    }
    if !linearizable(State::new(), &steps, &apply) {
        return Err(format!("no sequential order of the calls gives these results: {}",
            log.iter().map(|r| format!("[thread {} {:?} {}..{} gave {:?}]", r.thread, r.op, r.start, r.end, r.res.as_ref().ok())).collect::<Vec<_>>().join(" ")));
    }
    // outcome without addresses
    Ok(log.iter().map(|r| format!("{}:{:?}={}", r.thread, r.op, match r.res.as_ref().unwrap() {
        Res::Family(f) => format!("{:?}", f.as_ref().map(|f| &f.0)), Res::Bool(b) => b.to_string(),
        Res::Made { offered, got, built } => format!("{offered}->{:?} {built:?}", got.as_ref().map(|g| &g.0)),
        Res::Rejected(b) => b.to_string(), Res::Alphabet(a) => format!("{a:?}"),
    })).collect::<Vec<_>>().join(" "))
}

/// Names asked for at the end of every program.
fn closing(log: &Log<Op, Res>, keep: &Mutex<Vec<Arc<SystemFamily>>>) {
    for op in [Get(0), Get(0), Exists(0), Register(0), Resolve(0), Get(1), Get(2), Get(3), Exists(1), GetOrInit(0), GetOrInit(1), Get(1), Get(4), Exists(4), Register(4), Resolve(4)] { call(log, 8, &op, || perform(op, keep)); }
}

/// `fill`: how many other families there are.
fn setup(fill: usize, prog: &[Vec<Op>]) -> (Vec<Body>, Judge) {
    let others: Vec<_> = (0..fill).map(|k| family::register(make(&format!("other{k}"), "t")).expect("register")).collect();
    let log: Log<Op, Res> = Arc::new(Mutex::new(vec![]));
    let keep = Arc::new(Mutex::new(vec![]));
    let bodies = prog.iter().cloned().enumerate().map(|(t, ops)| {
        let (log, keep) = (log.clone(), keep.clone());
        Box::new(move || for op in ops { call(&log, t, &op, || perform(op, &keep)) }) as Body
    }).collect();
    (bodies, Box::new(move |_: &vctl::sched::Outcome| { 
        closing(&log, &keep);
        for (k, f) in others.iter().enumerate() { if !family::get_family(&format!("other{k}")).is_some_and(|g| Arc::ptr_eq(f, &g)) { return Err(format!("the family other{k} was lost")) } }
        let l = log.lock().unwrap();
        judge(&l)
    }))
}

fn programs(name: &str, progs: Vec<Vec<Vec<Op>>>, bound: Bound) -> Family {
    Family::new(name, progs.len() as u64, move |i, ctx| {
        let prog = &progs[i as usize];
        explore(&format!("threads {prog:?}"), &|| setup(0, prog), bound, 400_000, ctx)
    }).chunk(2).patience(120)
}

/// A thread that registers and asks, next to one that does anything.
fn asked(tier: Tier) -> Vec<Vec<Vec<Op>>> {
    let mut v = vec![];
    for first in [Register(0), Build(0), GetOrInit(0)] {
        for ask in [Get(0), Exists(0), Resolve(0), GetOrInit(0), Register(0), Exists(1), Get(1)] {
            for other in [Register(0), Build(0), GetOrInit(0), GetOrInitAs(0, 1), Register(1), Build(1), GetOrInit(1), Exists(0), Get(1), Abop] {
                v.push(vec![vec![first, ask], vec![other]]);
                if tier == Tier::Thorough { for o in [Register(2), Build(1), Get(0)] { v.push(vec![vec![first, ask], vec![other, o]]) } }
            }
        }
    }
    v
}

fn filled(name: &str, fills: Vec<usize>, progs: Vec<Vec<Vec<Op>>>, bound: Bound) -> Family {
    let np = fills.len() as u64;
    Family::new(name, progs.len() as u64 * np, move |i, ctx| {
        let (prog, fill) = (&progs[(i / np) as usize], fills[(i % np) as usize]);
        explore(&format!("with {fill} other families, threads {prog:?}"), &|| setup(fill, prog), bound, 400_000, ctx)
    }).chunk(2).patience(120)
}

fn histories(name: &str, ops: &'static [Op], max: u32) -> Family {
    let s = Seqs::new(ops.len(), 0, max);
    Family::new(name, s.size(), move |i, ctx| {
        let seq: Vec<Op> = s.get(i).into_iter().map(|k| ops[k]).collect();
        let r = in_child(20, || {
            let log: Log<Op, Res> = Arc::new(Mutex::new(vec![]));
            let keep = Mutex::new(vec![]);
            for op in &seq { call(&log, 0, op, || perform(*op, &keep)); }
            closing(&log, &keep);
            let l = log.lock().unwrap();
            match judge(&l) { Ok(s) => format!("+{s}"), Err(e) => format!("-{e}") }.into_bytes()
        });
        let input = format!("calls {seq:?}");
        match r.map(|b| String::from_utf8_lossy(&b).into_owned()) {
            Ok(s) if s.starts_with('+') => { ctx.done(hash(&s), seq.len() as u64 + 12); ctx.sample(|| s); Ok(()) }
            Ok(s) => fail(input, &s[1..]),
            Err(m) => fail(input, m),
        }
    })
}

/// Very many families: each keeps its identity.
fn many(tier: Tier) -> Family {
    let n = tier.pick(3000, 20000);
    Family::new("many families registered in one process", n, move |i, ctx| {
        let name = format!("fam{i}");
        let t = format!("t{i}");
        let f = if i % 3 == 0 { family::register(make(&name, &t)).map_err(|e| Fail { input: name.clone(), what: e.to_string() })? }
            else if i % 3 == 1 { SystemFamily::define().with_terminal(t.as_str(), None).with_production("p", Some("q")).register(&name).map_err(|e| Fail { input: name.clone(), what: e.to_string() })? }
            else { family::get_or_init_family(&name, || make(&name, &t)) };
        if id(&f).0 != t { return fail(name, format!("got the family tagged {:?}", id(&f).0)) }
        for k in [0, i / 2, i.saturating_sub(1), i] {
            match family::get_family(format!("fam{k}")) {
                Some(g) if id(&g).0 == format!("t{k}") && id(&g).1 == format!("fam{k}") => {}
                g => return fail(format!("after registering fam0..=fam{i}"), format!("fam{k} is {:?}", g.map(|g| id(&g).0))),
            }
        }
        if family::register(make(&name, "other")).is_ok() { return fail(name, "registered twice") }
        if family::family_exists(format!("fam{}", i + 1)) { return fail(name, format!("fam{} exists before it was registered", i + 1)) }
        ctx.done(hash(&name), 8);
        Ok(())
    }).chunk(n)
}

/// Names that are nearly the same are different names, however long they are.
fn near_names(tier: Tier) -> Family {
    let mut bases: Vec<String> = ["Koch curve", "quadratic", "é日本 family", "a-b_c.d", "Sierpinski triangle (right angled)", "x", "Tree 1", "tree/branch", "\"quoted\"", "two  spaces", "tab\tin it", "Straße", "🌿🌿"].map(String::from).to_vec();
    bases.extend(lengths(tier.pick(40, 140), tier.pick(1 << 12, 1 << 16)).into_iter().skip(1).map(|l| "name of a family ".chars().cycle().take(l - 1).chain(['z']).collect()));
    let n = bases.len() as u64 * 3;
    Family::new("a family and every name that is nearly its own", n, move |i, ctx| {
        let base = bases[i as usize / 3].clone();
        let way = i % 3;
        let r = in_child(60, || {
            let near = near_names_of(&base);
            let bad = |m: String| { let mut v = vec![b'-']; v.extend(m.into_bytes()); v };
            let t = tag();
            let first = match way {
                0 => family::register(make(&base, &t)).map_err(|e| e.to_string()),
                1 => SystemFamily::define().with_terminal(t.as_str(), None).with_production("p", Some("q")).register(&base).map_err(|e| e.to_string()),
                _ => Ok(family::get_or_init_family(&base, || make(&base, &t))),
            };
            let first = match first { Ok(f) => id(&f), Err(e) => return bad(format!("cannot be registered: {e}")) };
            if first.0 != t || first.1 != base { return bad(format!("registering gave {first:?}")) }
            for n in &near {
                if let Some(f) = family::get_family(n) { return bad(format!("asking for {} gave the family {}", show(n), show(f.name()))) }
                if family::family_exists(n) { return bad(format!("{} is said to exist", show(n))) }
                if n.as_str().into_family().is_ok() { return bad(format!("{} resolves to a family", show(n))) }
                if family::get_family(&base).map(|f| id(&f)) != Some(first.clone()) { return bad(format!("after asking for {} the family is another", show(n))) }
            }
            // each of them may have a family of its own
            let mut own: Vec<(String, Id)> = vec![(base.clone(), first)];
            for (k, n) in near.iter().enumerate() {
                let t = tag();
                let f = match k % 3 {
                    0 => family::register(make(n, &t)).map_err(|e| e.to_string()),
                    1 => Ok(family::get_or_init_family(n, || make(n, &t))),
                    _ => SystemFamily::define().with_terminal(t.as_str(), None).with_production("p", Some("q")).register(n).map_err(|e| e.to_string()),
                };
                match f {
                    Ok(f) if id(&f).0 == t && id(&f).1 == *n => own.push((n.clone(), id(&f))),
                    Ok(f) => return bad(format!("a family of the name {} turned out as {:?}", show(n), id(&f))),
                    Err(e) => return bad(format!("no family of the name {} can be registered: {e}", show(n))),
                }
            }
            for (n, i) in &own { if family::get_family(n).map(|f| id(&f)).as_ref() != Some(i) || !family::family_exists(n) || family::register(make(n, "late")).is_ok() { return bad(format!("with all of them registered, {} is not the family first registered", show(n))) } }
            format!("+{}", own.len()).into_bytes()
        });
        let input = format!("a family called {}", show(&base));
        match r.map(|b| String::from_utf8_lossy(&b).into_owned()) {
            Ok(s) if s.starts_with('+') => { ctx.done(hash(&(way, &base)), s[1..].parse::<u64>().unwrap_or(1) * 6); Ok(()) }
            Ok(s) => fail(input, &s[1..]),
            Err(m) => fail(input, m),
        }
    }).patience(70)
}

/// A default that panics registers nothing. Afterwards the registry may have given up altogether (then
/// nothing is found any more, and attempts to register say so), but it never gives another family.
fn failing_default() -> Family {
    const BEFORE: [&[Op]; 6] = [&[], &[Register(0)], &[Build(1)], &[GetOrInit(2)], &[Register(1), GetOrInit(3)], &[Abop]];
    const AFTER: [Op; 12] = [Get(0), Exists(0), Resolve(0), Register(0), Build(0), GetOrInit(0), GetOrInitAs(0, 1), Get(1), Exists(1), Register(1), GetOrInit(1), Abop];
    let n = (BEFORE.len() * NAMES.len() * 2 * AFTER.len() * AFTER.len()) as u64;
    Family::new("a default that panics registers nothing", n, move |i, ctx| {
        let d = digits(i, &[BEFORE.len() as u64, NAMES.len() as u64, 2, AFTER.len() as u64, AFTER.len() as u64]);
        let (before, name, elsewhere, after) = (BEFORE[d[0]], d[1] as u8, d[2] == 1, [AFTER[d[3]], AFTER[d[4]]]);
        let input = format!("after {before:?}, a default for {:?} that panics{}, then {after:?}", NAMES[d[1]], if elsewhere { " on another thread" } else { "" });
        let r = in_child(20, || {
            let keep = Mutex::new(vec![]);
            let mut s = State::new();
            let mut go = || -> Result<String, String> {
                let mut out = String::new();
                for op in before { let r = perform(*op, &keep); if !apply(&mut s, &Effect(*op, r.clone())) { return Err(format!("{op:?} gave {r:?}")) } }
                let known = s.clone();
                let fails = move || quiet(move || { let mut ran = 0; family::get_or_init_family(NAMES[name as usize], || { ran += 1; if ran > 0 { panic!("no default") } make("G", "t") }) }).map(|f| id(&f));
                let got = if elsewhere { std::thread::spawn(fails).join().map_err(|_| "the thread died")? } else { fails() };
                match (known.contains_key(&name), got) {
                    (true, Ok(f)) => if !same(&mut s, name, &f) { return Err(format!("a registered family was not found: {f:?}")) },
                    (false, Err(m)) if m.contains("no default") => {}
                    (_, r) => return Err(format!("get-or-create ended with {r:?}")),
                }
                for op in [Get(name), Exists(name), Resolve(name)].into_iter().chain(after) {
                    let r = match quiet(|| perform(op, &keep)) {
                        Ok(r) => r,
                        Err(_) if !known.contains_key(&name) => { out.push('!'); continue }
                        Err(m) => return Err(format!("{op:?} panicked: {m}")),
                    };
                    let mut t = s.clone();
                    let fits = apply(&mut t, &Effect(op, r.clone()));
                    let nothing = matches!(r, Res::Family(None) | Res::Bool(false) | Res::Made { got: None, .. } | Res::Alphabet(Err(_)));
                    if fits { s = t }
                    else if !nothing || known.contains_key(&name) { return Err(format!("{op:?} gave {r:?}")) }
                    out.push_str(if fits { "." } else { "-" });
                }
                Ok(out)
            };
            match go() { Ok(s) => format!("+{s}"), Err(e) => format!("-{e}") }.into_bytes()
        });
        match r.map(|b| String::from_utf8_lossy(&b).into_owned()) {
            Ok(s) if s.starts_with('+') => { ctx.done(hash(&(i, &s)), before.len() as u64 + 6); ctx.sample(|| format!("{input}: {s}")); Ok(()) }
            Ok(s) => fail(input, &s[1..]),
            Err(m) => fail(input, m),
        }
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    static HIST: [Op; 10] = [Get(0), Register(0), Build(0), GetOrInit(0), Register(1), GetOrInit(2), GetOrInitAs(0, 1), Build(3), BuildBlank, Abop];
    // names of families and the names they are registered under
    static HIST3: [Op; 9] = [Get(1), Register(0), Build(1), GetOrInit(0), GetOrInit(1), GetOrInitAs(0, 1), GetOrInitAs(1, 0), GetOrInitAs(3, 0), Exists(1)];
    // families with few or no symbols
    static HIST4: [Op; 9] = [Get(0), Register(0), GetOrInit(0), Bare(0), BareBuild(0), BareInit(0), Producing(0), BareBuild(1), Exists(1)];
    static HIST2: [Op; 13] = [Get(0), Resolve(1), Register(0), Build(0), GetOrInit(0), Register(1), GetOrInit(2), Build(3), BuildBlank, Abop, Register(4), GetOrInit(4), GetOrInitAs(4, 0)];
    let all = [Get(0), Exists(0), Resolve(0), Register(0), Build(0), GetOrInit(0), GetOrInit(1), GetOrInitAs(0, 1), Register(1), Abop, BuildBlank];
    let mid = [Get(0), Register(0), Build(0), GetOrInit(0), GetOrInit(1)];
    let mut v = vec![
        programs("2 threads x 1 call, every schedule", mix(2, &seqs(1, &all[..9])), Bound::None),
        programs("2 threads x 1 call, all calls", mix(2, &seqs(1, &all)), Bound::Preemptions(tier.pick(1, 3))),
        programs("2 threads x 2 calls, preemption bound 2", mix(2, &seqs(2, &mid)), Bound::Preemptions(2)),
        programs("asking for what is there while another thread is at work", asked(tier), Bound::Preemptions(tier.pick(2, 3))),
        programs("3 threads x 1 call, preemption bound 2", mix(3, &seqs(1, &[Get(0), Register(0), Build(0), GetOrInit(0), GetOrInit(1), GetOrInitAs(0, 1)])), Bound::Preemptions(2)),
        filled("2 threads x 1 call with any number of families", (1..tier.pick(35, 70)).chain([62, 63, 64, 65]).collect(), mix(2, &seqs(1, &[Register(0), GetOrInit(0), GetOrInit(1), Get(0)])), Bound::Preemptions(2)),
        histories("histories of calls from the empty registry", &HIST, tier.pick(4, 5)),
        histories("histories with defaults of another name", &HIST3, tier.pick(4, 5)),
        histories("histories with families of few symbols", &HIST4, tier.pick(4, 5)),
        programs("2 threads x 1 call, families of few symbols", mix(2, &seqs(1, &[Register(0), GetOrInit(0), Bare(0), BareBuild(0), BareInit(0), Producing(0)])), Bound::Preemptions(tier.pick(2, 4))),
        many(tier), near_names(tier), failing_default(),
    ];
    if tier == Tier::Thorough {
        v.push(histories("histories of calls, wide alphabet", &HIST2, 4));
        v.push(programs("2 threads x 2 calls, every schedule", mix(2, &seqs(2, &mid)), Bound::None));
        v.push(programs("2 threads x 2 calls, preemption bound 3, all calls", mix(2, &seqs(2, &all)), Bound::Preemptions(3)));
        v.push(programs("3 threads x 1 call, preemption bound 4", mix(3, &seqs(1, &all)), Bound::Preemptions(4)));
        v.push(programs("3 threads x 2 calls, preemption bound 2", mix(3, &seqs(2, &[Get(0), Build(0), GetOrInit(0)])), Bound::Preemptions(2)));
        v.push(programs("4 threads x 1 call, preemption bound 3", mix(4, &seqs(1, &[Get(0), Register(0), GetOrInit(0), Build(1)])), Bound::Preemptions(3)));
    }
    v
}

pub const PROPERTY: Property = Property {
    id: "C04", level: "model_checking",
    rule: "A case is one program of concurrent calls (all its schedules within the bound run on the real registry) or one history of calls from the empty registry. Distinct states are distinct (calls, results) outcomes.",
    assumptions: &["sequentially consistent interleavings at synchronisation operations; weak memory orders are not modelled", "the default passed to get-or-create does not itself use the registry; after one that panics only this is required: it registered nothing, and no call hangs or gives another family"],
    families,
};
