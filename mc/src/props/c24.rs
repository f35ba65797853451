//! C24: conversions and stores of the caller that fail, panic or call back.
use crate::{engine::*, explore::*, util::*};
use rusty_systems::parser::{parse_and_add_production, parse_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionStore};
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::{self, TryIntoFamily};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

/// How the caller's code ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End { Value, Refuse, Panic }
/// What it calls before that.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Inner { Nothing, AddRule, AddSymbol, Derive, Look, Register, Family, Intern, Deep }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind { Symbol, Rule, Family, Parse, ParseRule }
type Op = (Kind, Inner, End);

/// The caller's code: runs once, when the library asks for the conversion.
struct Conv<'a, T> { act: &'a dyn Fn(), end: End, value: T }
impl<T> Conv<'_, T> {
    fn go(self) -> Result<T, Error> {
        (self.act)();
        match self.end { End::Value => Ok(self.value), End::Refuse => Err(Error::general("the caller says no")), End::Panic => panic!("the caller gives up") }
    }
}
impl TryFrom<Conv<'_, Symbol>> for Symbol { type Error = Error; fn try_from(c: Conv<'_, Symbol>) -> Result<Symbol, Error> { c.go() } }
impl TryFrom<Conv<'_, Production>> for Production { type Error = Error; fn try_from(c: Conv<'_, Production>) -> Result<Production, Error> { c.go() } }
impl TryIntoFamily for Conv<'_, Arc<SystemFamily>> { fn into_family(self) -> rusty_systems::Result<Arc<SystemFamily>> { self.go() } }

/// A store that hands everything on to a system; the caller's code runs at the second symbol, or
/// when the rule arrives.
struct Through<'a> { sys: &'a System, act: &'a dyn Fn(), end: End, at_rule: bool, seen: Cell<usize> }
impl SymbolStore for Through<'_> {
    fn add_symbol<S>(&self, s: S) -> rusty_systems::Result<Symbol> where S: TryInto<Symbol>, S::Error: Into<Error> {
        let k = self.seen.replace(self.seen.get() + 1);
        if k == 1 && !self.at_rule {
            let value = s.try_into().map_err(Into::into)?;
            return self.sys.add_symbol(Conv { act: self.act, end: self.end, value });
        }
        self.sys.add_symbol(s)
    }
    fn get_symbol(&self, n: &str) -> Option<Symbol> { self.sys.get_symbol(n) }
}
impl ProductionStore for Through<'_> {
    fn add_production<P>(&self, p: P) -> rusty_systems::Result<Production> where P: TryInto<Production>, P::Error: Into<Error> {
        if self.at_rule {
            let value = p.try_into().map_err(Into::into)?;
            return self.sys.add_production(Conv { act: self.act, end: self.end, value });
        }
        self.sys.add_production(p)
    }
}

/// What the system and the registry must hold.
#[derive(Clone, Default, Debug)]
struct Model { symbols: BTreeSet<String>, rules: Vec<(String, Vec<String>)>, families: BTreeSet<String> }
impl Model {
    fn rule(&mut self, head: &str, body: &str) -> Vec<String> {
        self.symbols.extend(head.split(['<', '>', ' ']).chain(body.split(' ')).filter(|s| !s.is_empty()).map(|s| s.to_string()));
        match self.rules.iter_mut().find(|r| r.0 == head) {
            Some(r) => { r.1.push(body.into()); r.1.clone() }
            None => { self.rules.push((head.into(), vec![body.into()])); vec![body.into()] }
        }
    }
}
fn bodies(p: &Production) -> Vec<String> { p.all_bodies().iter().map(|b| b.string().to_string()).collect() }
fn fam(name: &str, terminal: &str) -> SystemFamily { SystemFamily::define().with_terminal(terminal, None).build(name).expect("family") }

/// The inner call, on the same system. Everything it says is noted and judged later.
fn inner(i: Inner, sys: &System, notes: &RefCell<Vec<String>>, step: usize) {
    let ok = |what: &str, r: Result<String, String>| notes.borrow_mut().push(match r { Ok(s) => format!("{what} gave {s}"), Err(e) => format!("{what} failed: {e}") });
    let e = |e: Error| e.to_string();
    match i {
        Inner::Nothing => {}
        Inner::AddRule => ok("add", sys.add_production(format!("A -> y{step}").as_str()).map(|p| bodies(&p).join("|")).map_err(e)),
        Inner::AddSymbol => ok("symbol", sys.add_symbol("inner").map(|s| s.to_string()).map_err(e)),
        Inner::Derive => ok("derive", sys.derive(ProductionString::from(Symbol::build("N").unwrap()), 3.into()).and(sys.derive_once(ProductionString::from(Symbol::build("N").unwrap()))).map(|s| s.to_string()).map_err(e)),
        Inner::Look => ok("look", Ok(format!("{} {} {}", sys.production_len(), sys.symbol_len(), sys.get_symbol("A").is_some()))),
        Inner::Register => ok("register", family::register(fam("F", "t")).map(|f| f.name().clone()).map_err(|_| "no".into())),
        Inner::Family => ok("of_family", System::of_family("F").map(|s| s.symbol_len().to_string()).map_err(|_| "no".into())),
        Inner::Intern => ok("intern", Symbol::build(format!("new{step}")).map(|s| s.to_string()).map_err(e)),
        // a conversion within the conversion
        Inner::Deep => {
            let act = || inner(Inner::AddRule, sys, notes, step);
            let value = parse_production(&format!("A -> z{step}")).unwrap();
            ok("deep", sys.add_production(Conv { act: &act, end: End::Value, value }).map(|p| bodies(&p).join("|")).map_err(e))
        }
    }
}
/// What the model says of the inner call.
fn inner_model(i: Inner, m: &mut Model, step: usize) -> Vec<String> {
    match i {
        Inner::Nothing => vec![],
        Inner::AddRule => vec![format!("add gave {}", m.rule("A", &format!("y{step}")).join("|"))],
        Inner::AddSymbol => { m.symbols.insert("inner".into()); vec!["symbol gave inner".into()] }
        Inner::Derive => vec!["derive gave N".into()],
        Inner::Look => vec![format!("look gave {} {} {}", m.rules.len(), m.symbols.len(), m.symbols.contains("A"))],
        Inner::Register => vec![if m.families.insert("F".into()) { "register gave F".into() } else { "register failed: no".into() }],
        Inner::Family => vec![if m.families.contains("F") { "of_family gave 1".into() } else { "of_family failed: no".into() }],
        Inner::Intern => vec![format!("intern gave new{step}")],
        Inner::Deep => { let mut v = inner_model(Inner::AddRule, m, step); v.push(format!("deep gave {}", m.rule("A", &format!("z{step}")).join("|"))); v }
    }
}

/// Makes one call and compares it with the model.
fn one(op: Op, step: usize, sys: &System, m: &mut Model) -> Result<String, String> {
    let (kind, i, end) = op;
    let notes = RefCell::new(vec![]);
    let ran = Cell::new(0);
    let act = || { ran.set(ran.get() + 1); inner(i, sys, &notes, step) };
    let text = |r: Result<String, Error>| match r { Ok(s) => format!("gave {s}"), Err(e) => if e.to_string() == "the caller says no" { "refused".into() } else { format!("failed: {e}") } };
    let rule = format!("s{step} < A > B -> x{step}");
    let got = quiet(|| match kind {
        Kind::Symbol => text(sys.add_symbol(Conv { act: &act, end, value: Symbol::build(format!("s{step}")).unwrap() }).map(|s| s.to_string())),
        Kind::Rule => text(sys.add_production(Conv { act: &act, end, value: parse_production(&format!("A -> x{step}")).unwrap() }).map(|p| bodies(&p).join("|"))),
        Kind::Family => text(System::of_family(Conv { act: &act, end, value: Arc::new(fam("F", &format!("t{step}"))) })
            .map(|s| format!("{} {} {} {}", s.symbol_len(), s.production_len(), s.get_symbol(&format!("t{step}")).is_some(), s.get_symbol("A").is_some()))),
        Kind::Parse | Kind::ParseRule => {
            let store = Through { sys, act: &act, end, at_rule: kind == Kind::ParseRule, seen: Cell::new(0) };
            text(parse_and_add_production(&store, &store, &rule).map(|p| bodies(&p).join("|")))
        }
    }).unwrap_or_else(|e| if e.starts_with("the caller gives up") { "panicked".into() } else { format!("panicked: {e}") });
    // the model: everything before the caller's code, its inner call, then the rest unless it ends the call
    let head = format!("s{step} < A > B");
    match kind { Kind::Parse => { m.symbols.insert(format!("s{step}")); } Kind::ParseRule => m.symbols.extend([format!("s{step}"), "A".into(), "B".into(), format!("x{step}")]), _ => {} }
    let want_notes = inner_model(i, m, step);
    let want = match end {
        End::Refuse => "refused".into(),
        End::Panic => "panicked".into(),
        End::Value => match kind {
            Kind::Symbol => { m.symbols.insert(format!("s{step}")); format!("gave s{step}") }
            Kind::Rule => format!("gave {}", m.rule("A", &format!("x{step}")).join("|")),
            Kind::Family => "gave 1 0 true false".into(),
            Kind::Parse | Kind::ParseRule => format!("gave {}", m.rule(&head, &format!("x{step}")).join("|")),
        },
    };
    let notes = notes.into_inner();
    if ran.get() != 1 { return Err(format!("the caller's code ran {} times", ran.get())) }
    if notes != want_notes { return Err(format!("call {step}: inside the caller's code {notes:?} instead of {want_notes:?}")) }
    if got != want { return Err(format!("call {step} {got} instead of {want}")) }
    Ok(format!("{got} {notes:?}; "))
}

/// Everything works and shows what the model holds.
fn check(sys: &System, m: &Model) -> Result<(), String> {
    if sys.production_len() != m.rules.len() { return Err(format!("the system has {} rules instead of {}", sys.production_len(), m.rules.len())) }
    if sys.symbol_len() != m.symbols.len() { return Err(format!("the system has {} symbols instead of {:?}", sys.symbol_len(), m.symbols)) }
    for n in ["A", "B", "inner", "s0", "s1", "s2", "x0", "x1", "x2", "y0", "y1", "y2", "z0", "z1", "z2", "new0"] {
        if sys.get_symbol(n).map(|s| s.to_string()) != m.symbols.get(n).cloned() { return Err(format!("symbol {n} is {:?} and the model says {}", sys.get_symbol(n).map(|s| s.to_string()), m.symbols.contains(n))) }
    }
    let a = ProductionString::from(Symbol::build("A").unwrap());
    let d = sys.derive_once(a).map_err(|e| format!("deriving fails: {e}"))?.to_string();
    match m.rules.iter().find(|r| r.0 == "A") { Some(r) if r.1.contains(&d) => {} None if d == "A" => {} r => return Err(format!("A becomes {d}, the model's rule is {r:?}")) }
    for f in ["F", "G"] { if family::family_exists(f) != m.families.contains(f) { return Err(format!("family {f} exists: {}", family::family_exists(f))) } }
    Ok(())
}
/// ... and can still be changed.
fn extend(sys: &System, m: &mut Model) -> Result<(), String> {
    let p = sys.add_production("A -> last").map_err(|e| format!("adding fails: {e}"))?;
    let w = m.rule("A", "last");
    if bodies(&p) != w { return Err(format!("A has the alternatives {:?} instead of {w:?}", bodies(&p))) }
    for r in m.rules.clone() {
        let p = sys.add_production(format!("{} -> end", r.0).as_str()).map_err(|e| format!("adding fails: {e}"))?;
        let w = m.rule(&r.0, "end");
        if bodies(&p) != w { return Err(format!("{} has the alternatives {:?} instead of {w:?}", r.0, bodies(&p))) }
    }
    family::register(fam("G", "g")).map_err(|e| format!("registering fails: {e}"))?;
    m.families.insert("G".into());
    check(sys, m)
}

const KINDS: [Kind; 5] = [Kind::Symbol, Kind::Rule, Kind::Family, Kind::Parse, Kind::ParseRule];
const ENDS: [End; 3] = [End::Value, End::Refuse, End::Panic];
fn ops(inners: &[Inner]) -> Vec<Op> { KINDS.iter().flat_map(|k| inners.iter().flat_map(move |i| ENDS.iter().map(move |e| (*k, *i, *e)))).collect() }
const ALL: [Inner; 9] = [Inner::Nothing, Inner::AddRule, Inner::AddSymbol, Inner::Derive, Inner::Look, Inner::Register, Inner::Family, Inner::Intern, Inner::Deep];

fn histories(name: &str, inners: &[Inner], min: u32, max: u32) -> Family {
    let ops = ops(inners);
    let s = Seqs::new(ops.len(), min, max);
    Family::new(name, s.size(), move |i, ctx| {
        let seq: Vec<Op> = s.get(i).into_iter().map(|k| ops[k]).collect();
        let input = format!("{seq:?}");
        let r = in_child(15, || {
            let sys = Arc::new(System::new());
            let mut m = Model::default();
            let mut go = || -> Result<String, String> {
                let mut out = String::new();
                for (k, op) in seq.iter().enumerate() { out.push_str(&one(*op, k, &sys, &mut m)?); check(&sys, &m)?; }
                // another thread sees the same and can go on
                let (s2, mut m2) = (sys.clone(), m.clone());
                let m2 = std::thread::spawn(move || quiet(|| extend(&s2, &mut m2).map(|_| m2)).unwrap_or_else(|e| Err(format!("panicked: {e}")))).join().map_err(|_| "the other thread died")?
                    .map_err(|e| format!("on another thread: {e}"))?;
                check(&sys, &m2)?;
                Ok(out)
            };
            match go() { Ok(s) => format!("+{s}"), Err(e) => format!("-{e}") }.into_bytes()
        });
        match r.map(|b| String::from_utf8_lossy(&b).into_owned()) {
            Ok(s) if s.starts_with('+') => { ctx.done(hash(&s), seq.len() as u64 * 2 + 20); ctx.sample(|| format!("{input}: {s}")); Ok(()) }
            Ok(s) => fail(input, &s[1..]),
            Err(e) => fail(input, e),
        }
    })
}

/// The bundled cell-based stores: they are not borrowed while the caller's code runs.
fn cells() -> Family {
    let inners = 4u64;
    Family::new("cell-based stores", 2 * inners * 3 * 3, move |i, ctx| {
        let d = digits(i, &[2, inners, 3, 3]);
        let (symbols, rules) = (RefCell::new(HashSet::<u32>::new()), RefCell::new(Vec::<Production>::new()));
        let input = format!("case {d:?}");
        let (mut ws, mut wr): (BTreeSet<String>, Vec<String>) = Default::default();
        for step in 0..=d[3] {
            let end = ENDS[(d[2] + step) % 3];
            let act = || match d[1] {
                0 => {}
                1 => { symbols.add_symbol(format!("i{step}").as_str()).unwrap(); }
                2 => { rules.add_production(format!("I -> y{step}").as_str()).unwrap(); }
                _ => { symbols.get_symbol("A"); symbols.borrow_mut().insert(Symbol::build(format!("i{step}").as_str()).unwrap().code()); rules.borrow_mut().clear(); }
            };
            let r = quiet(|| if d[0] == 0 { symbols.add_symbol(Conv { act: &act, end, value: Symbol::build(format!("s{step}")).unwrap() }).map(|s| s.to_string()) }
                else { rules.add_production(Conv { act: &act, end, value: parse_production(&format!("A -> x{step}")).unwrap() }).map(|p| bodies(&p).join("|")) });
            match d[1] { 1 => { ws.insert(format!("i{step}")); } 2 => wr.push(format!("y{step}")), 3 => { ws.insert(format!("i{step}")); wr.clear() } _ => {} }
            let good = match (end, &r) { (End::Value, Ok(Ok(s))) => *s == if d[0] == 0 { format!("s{step}") } else { format!("x{step}") }, (End::Refuse, Ok(Err(e))) => e.to_string() == "the caller says no", (End::Panic, Err(e)) => e.starts_with("the caller gives up"), _ => false };
            if !good { return fail(input, format!("ending with {end:?}, the call gave {r:?}")) }
            if end == End::Value { if d[0] == 0 { ws.insert(format!("s{step}")); } else { wr.push(format!("x{step}")) } }
            let got: BTreeSet<String> = match symbols.try_borrow() { Ok(s) => s.iter().map(|c| rusty_systems::symbols::get_name(*c).unwrap()).collect(), Err(_) => return fail(input, "the symbol store is left borrowed") };
            let gotr: Vec<String> = match rules.try_borrow_mut() { Ok(s) => s.iter().map(|p| bodies(p).join("|")).collect(), Err(_) => return fail(input, "the rule store is left borrowed") };
            if got != ws || gotr != wr { return fail(input, format!("the stores hold {got:?} and {gotr:?} instead of {ws:?} and {wr:?}")) }
        }
        ctx.done(hash(&d), d[3] as u64 + 1);
        Ok(())
    })
}

// ------------------------------------------------------------------ several threads

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Call { Run(Kind, Inner, End), Rule, Once, Count, Reg, GetFam }
use Call::*;

/// Threads on one system, some of whose conversions panic, refuse or call back.
fn setup(prog: &[Vec<Call>]) -> (Vec<Body>, Judge) {
    for n in ["A", "B", "N", "inner", "plain", "p0", "p1"] { Symbol::build(n).unwrap(); }
    let sys = Arc::new(System::new());
    // what each call said
    let log: Arc<Mutex<Vec<(usize, usize, Call, Result<String, String>)>>> = Arc::default();
    let mut ready: BTreeMap<usize, (Production, Symbol)> = BTreeMap::new();
    for k in 0..9 { ready.insert(k, (parse_production(&format!("A -> x{k}")).unwrap(), Symbol::build(format!("s{k}")).unwrap())); Symbol::build(format!("y{k}")).unwrap(); Symbol::build(format!("new{k}")).unwrap(); }
    let plain = parse_production("B -> plain").unwrap();
    let bodies_ = prog.iter().cloned().enumerate().map(|(t, calls)| {
        let (sys, log, ready, plain) = (sys.clone(), log.clone(), ready.clone(), plain.clone());
        Box::new(move || for (k, c) in calls.into_iter().enumerate() {
            let step = t * 3 + k;
            vctl::sched::begin();
            let text = |r: Result<String, Error>| r.map_err(|e| e.to_string());
            let r = quiet(|| match c {
                Run(kind, i, end) => {
                    let notes = RefCell::new(vec![]);
                    let act = || inner(i, &sys, &notes, step);
                    let r = match kind {
                        Kind::Symbol => text(sys.add_symbol(Conv { act: &act, end, value: ready[&step].1 }).map(|s| s.to_string())),
                        Kind::Rule => text(sys.add_production(Conv { act: &act, end, value: ready[&step].0.clone() }).map(|_| "rule".into())),
                        _ => text(System::of_family(Conv { act: &act, end, value: Arc::new(fam("F", "t")) }).map(|s| s.symbol_len().to_string())),
                    };
                    if let Some(n) = notes.borrow().iter().find(|n| n.contains("failed") && !n.ends_with(": no")) { return Err(format!("inside the caller's code: {n}")) }
                    r
                }
                Rule => text(sys.add_production(plain.clone()).map(|p| bodies(&p).join("|"))),
                Once => text(sys.derive_once(ProductionString::from(Symbol::build("A").unwrap())).map(|s| s.to_string())),
                Count => Ok(format!("{} {}", sys.production_len(), sys.symbol_len())),
                Reg => Ok(if family::register(fam("F", "t")).is_ok() { "yes" } else { "no" }.into()),
                GetFam => Ok(family::family_exists("F").to_string()),
            });
            let r = match r { Ok(r) => r, Err(e) => Err(format!("panicked: {e}")) };
            log.lock().unwrap().push((t, k, c, r));
        }) as Body
    }).collect();
    let judge = move |_: &vctl::sched::Outcome| -> Result<String, String> {
        let mut m = Model::default();
        let mut alts: Vec<String> = vec![];
        let mut regs = 0;
        let log = log.lock().unwrap();
        for (t, k, c, r) in log.iter() {
            let step = t * 3 + k;
            let bad = |why: &str| Err(format!("thread {t}, call {k}, {c:?} gave {r:?}{why}"));
            match c {
                Run(kind, i, end) => {
                    match (end, r) {
                        (End::Value, Ok(s)) if *kind == Kind::Symbol && *s == format!("s{step}") => { m.symbols.insert(s.clone()); }
                        (End::Value, Ok(s)) if *kind == Kind::Rule && s == "rule" => { m.symbols.insert("A".into()); m.symbols.insert(format!("x{step}")); alts.push(format!("x{step}")) }
                        (End::Value, Ok(s)) if *kind == Kind::Family && s == "1" => {}
                        (End::Refuse, Err(e)) if e == "the caller says no" => {}
                        (End::Panic, Err(e)) if e.starts_with("panicked: the caller gives up") => {}
                        _ => return bad(""),
                    }
                    match i {
                        Inner::AddRule => { m.symbols.insert("A".into()); m.symbols.insert(format!("y{step}")); alts.push(format!("y{step}")) }
                        Inner::AddSymbol => { m.symbols.insert("inner".into()); }
                        Inner::Register => { m.families.insert("F".into()); }
                        _ => {}
                    }
                }
                Rule => { let n = log.iter().filter(|x| x.2 == Rule).count(); match r { Ok(s) if s.split('|').all(|b| b == "plain") && s.split('|').count() <= n => {} _ => return bad("") } m.rule("B", "plain"); }
                Once => match r { Ok(s) if s == "A" || s.starts_with('x') || s.starts_with('y') => {} _ => return bad("") },
                Count | GetFam => if r.is_err() { return bad("") },
                Reg => { if r.as_deref() == Ok("yes") { regs += 1 } m.families.insert("F".into()); }
            }
        }
        if regs > 1 { return Err("a family was registered twice".into()) }
        if sys.symbol_len() != m.symbols.len() { return Err(format!("the system has {} symbols instead of {:?}", sys.symbol_len(), m.symbols)) }
        let want = m.rules.len() + !alts.is_empty() as usize;
        if sys.production_len() != want { return Err(format!("the system has {} rules instead of {want}", sys.production_len())) }
        for s in &m.symbols { if sys.get_symbol(s).is_none() { return Err(format!("symbol {s} is missing")) } }
        let p = sys.add_production("A -> last").map_err(|e| format!("adding at the end fails: {e}"))?;
        let mut got = bodies(&p);
        let last = got.pop();
        let order = format!("{got:?}");
        got.sort();
        alts.sort();
        if last.as_deref() != Some("last") || got != alts { return Err(format!("A has the alternatives {order} and {last:?} instead of {alts:?} in some order")) }
        if family::family_exists("F") != m.families.contains("F") { return Err("family F is lost or made up".into()) }
        Ok(format!("{:?} {order}", log.iter().map(|x| format!("{}{}={:?}", x.0, x.1, x.3)).collect::<Vec<_>>()))
    };
    (bodies_, Box::new(judge))
}

fn programs(name: &str, progs: Vec<Vec<Vec<Call>>>, bound: Bound) -> Family {
    Family::new(name, progs.len() as u64, move |i, ctx| {
        let prog = &progs[i as usize];
        explore(&format!("threads {prog:?}"), &|| setup(prog), bound, 400_000, ctx)
    }).chunk(2).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> {
    use crate::props::c03::{mix, seqs};
    let odd = [Run(Kind::Rule, Inner::Nothing, End::Panic), Run(Kind::Rule, Inner::AddRule, End::Value), Run(Kind::Rule, Inner::AddRule, End::Panic), Run(Kind::Symbol, Inner::AddRule, End::Refuse), Run(Kind::Symbol, Inner::Derive, End::Panic),
               Run(Kind::Symbol, Inner::AddSymbol, End::Value), Run(Kind::Rule, Inner::Look, End::Value), Run(Kind::Family, Inner::Register, End::Value), Run(Kind::Family, Inner::Register, End::Panic), Run(Kind::Rule, Inner::Intern, End::Refuse),
               Rule, Once, Count, Reg, GetFam];
    let some = [Run(Kind::Rule, Inner::AddRule, End::Value), Run(Kind::Rule, Inner::Look, End::Panic), Run(Kind::Symbol, Inner::AddRule, End::Refuse), Rule, Once];
    let mut v = vec![
        histories("one and two calls, all of the caller's ways", &ALL, 1, tier.pick(1, 2)),
        histories("histories of two calls", &[Inner::Nothing, Inner::AddRule, Inner::Derive, Inner::Register, Inner::Deep], 2, 2),
        cells(),
        programs("2 threads x 1 call, every schedule", mix(2, &seqs(1, &odd[..6])), Bound::None),
        programs("2 threads x 1 call, all calls", mix(2, &seqs(1, &odd)), Bound::Preemptions(tier.pick(2, 3))),
        programs("2 threads x 2 calls", mix(2, &seqs(2, &some)), Bound::Preemptions(tier.pick(1, 2))),
        programs("3 threads x 1 call", mix(3, &seqs(1, &some)), Bound::Preemptions(tier.pick(1, 2))),
    ];
    if tier == Tier::Thorough { v.push(histories("histories of three calls", &[Inner::Nothing, Inner::AddRule, Inner::Register], 3, 3)) }
    v
}

pub const PROPERTY: Property = Property {
    id: "C24", level: "model_checking",
    rule: "Every history of calls whose conversion (or store) runs the caller's code, which first calls the same system or registry (or nothing) and then gives a value, refuses or panics; each call, the stores after it, and a second thread going on afterwards are compared with a sequential reference. And all schedules of small programs of threads that make such calls. Distinct states are distinct (calls, answers).",
    assumptions: &["the default passed to get-or-create runs while the registry is locked and is excluded", "the caller's code ends: it returns, refuses or panics", "sequentially consistent interleavings at synchronisation operations"],
    families,
};
