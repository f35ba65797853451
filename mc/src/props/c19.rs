//! C19: parsing into stores the caller supplies.
use crate::{bridge::*, engine::*, util::*};
use crate::props::c08::MRule;
use rusty_systems::parser::parse_and_add_production;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionStore};
use rusty_systems::symbols::SymbolStore;
use std::cell::RefCell;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
enum Event { Symbol(String), Production(MRule), Get(String) }

/// Records what it is offered; refuses the symbol or production with this ordinal.
struct Recorder { log: RefCell<Vec<Event>>, refuse_symbol: Option<usize>, refuse_production: bool, seen: RefCell<usize> }
impl Recorder {
    fn new(refuse_symbol: Option<usize>, refuse_production: bool) -> Self { Recorder { log: RefCell::new(vec![]), refuse_symbol, refuse_production, seen: RefCell::new(0) } }
}
fn read(p: &Production) -> MRule {
    let names = |s: &ProductionString| -> Vec<String> { s.iter().map(|s| s.to_string()).collect() };
    MRule { left: p.head().pre_context().map(names).unwrap_or_default(), target: p.head().target().to_string(), right: p.head().post_context().map(names).unwrap_or_default(),
            bodies: p.all_bodies().iter().map(|b| (if b.chance().is_user_set() { Some(b.chance().unwrap()) } else { None }, names(b.string()))).collect() }
}
impl SymbolStore for Recorder {
    fn add_symbol<S>(&self, s: S) -> Result<Symbol, Error> where S: TryInto<Symbol>, S::Error: Into<Error> {
        let s = s.try_into().map_err(Into::into)?;
        self.log.borrow_mut().push(Event::Symbol(s.to_string()));
        let k = *self.seen.borrow();
        *self.seen.borrow_mut() += 1;
        if Some(k) == self.refuse_symbol { return Err(Error::general("symbol refused")) }
        Ok(s)
    }
    fn get_symbol(&self, n: &str) -> Option<Symbol> { self.log.borrow_mut().push(Event::Get(n.into())); Symbol::build(n).ok() }
}
impl ProductionStore for Recorder {
    fn add_production<P>(&self, p: P) -> Result<Production, Error> where P: TryInto<Production>, P::Error: Into<Error> {
        let p = p.try_into().map_err(Into::into)?;
        self.log.borrow_mut().push(Event::Production(read(&p)));
        if self.refuse_production { return Err(Error::general("production refused")) }
        Ok(p)
    }
}

const LEFT: [&str; 5] = ["", "a <", "a b <", "a a <", "b c a <"];
const TARGET: [&str; 3] = ["X", "a", "long_name"];
const RIGHT: [&str; 4] = ["", "> c", "> c X", "> a a c"];
const CHANCE: [(&str, Option<f32>); 3] = [("", None), ("0.5", Some(0.5)), ("1", Some(1.0))];
const BODY: [&str; 7] = ["", "X", "a b", "b a b a", "X X X", "n1 n2 n3 n4 n5", "["];
const BAD: [&str; 10] = ["", "   ", "X", "a b c", "-> a", "a b -> c", "a < b c -> d", "X -> 1.5 a", "X -> -0.5 a b", " -> "];

fn words(s: &str) -> Vec<String> { s.split_whitespace().filter(|w| *w != "<" && *w != ">").map(|s| s.to_string()).collect() }

pub fn structured(i: u64) -> (String, MRule) {
    let d = digits(i, &[LEFT.len() as u64, TARGET.len() as u64, RIGHT.len() as u64, CHANCE.len() as u64, BODY.len() as u64]);
    let text = format!("{} {} {} -> {} {}", LEFT[d[0]], TARGET[d[1]], RIGHT[d[2]], CHANCE[d[3]].0, BODY[d[4]]);
    (text, MRule { left: words(LEFT[d[0]]), target: TARGET[d[1]].into(), right: words(RIGHT[d[2]]), bodies: vec![(CHANCE[d[3]].1, words(BODY[d[4]]))] })
}
pub fn structured_n() -> u64 { (LEFT.len() * TARGET.len() * RIGHT.len() * CHANCE.len() * BODY.len()) as u64 }

/// The events a parse must cause, with the store's answers.
fn expected(r: &MRule, refuse: Option<usize>) -> (Vec<Event>, bool) {
    let all: Vec<&String> = r.left.iter().chain([&r.target]).chain(&r.right).chain(&r.bodies[0].1).collect();
    let mut v = vec![];
    for (k, s) in all.iter().enumerate() {
        v.push(Event::Symbol(s.to_string()));
        if Some(k) == refuse { return (v, false) }
    }
    v.push(Event::Production(r.clone()));
    (v, true)
}

fn check(text: &str, want: Option<&MRule>, refuse: Option<usize>, refuse_prod: bool) -> Case {
    let input = || format!("{} with symbol {refuse:?} refused, production refused: {refuse_prod}", show(text));
    // the two stores may be one object or two; with one, the order between them shows
    for one in [true, false] {
        let a = Recorder::new(refuse, refuse_prod);
        let b = Recorder::new(None, refuse_prod);
        let got = calm(input, || if one { parse_and_add_production(&a, &a, text) } else { parse_and_add_production(&a, &b, text) })?;
        let mut log: Vec<Event> = a.log.borrow().iter().filter(|e| !matches!(e, Event::Get(_))).cloned().collect();
        log.extend(b.log.borrow().iter().cloned());
        match want {
            None => {
                if got.is_ok() { return fail(input(), "was accepted") }
                if !log.is_empty() { return fail(input(), format!("offered {log:?} although the text is invalid")) }
            }
            Some(r) => {
                let (ev, ok) = expected(r, refuse);
                if log != ev { return fail(input(), format!("offered {log:?} instead of {ev:?}")) }
                match got {
                    Ok(p) if ok && !refuse_prod => r.is(&p).or_else(|e| fail(input(), e))?,
                    Ok(_) => return fail(input(), "reported success although a store refused"),
                    Err(e) if ok && !refuse_prod => return fail(input(), format!("failed: {e}")),
                    Err(e) => {
                        let w = if ok { "production refused" } else { "symbol refused" };
                        if !e.to_string().contains(w) { return fail(input(), format!("the error is {e} and not the store's ({w})")) }
                    }
                }
            }
        }
    }
    Ok(())
}

fn recorded() -> Family {
    Family::new("every structured text, with every refusal", structured_n(), |i, ctx| {
        let (text, r) = structured(i);
        let n = r.left.len() + 1 + r.right.len() + r.bodies[0].1.len();
        for refuse in std::iter::once(None).chain((0..n).map(Some)) { check(&text, Some(&r), refuse, false)?; }
        check(&text, Some(&r), None, true)?;
        ctx.done(hash(&text), n as u64 * 2 + 4);
        ctx.extra(FAULTS, n as u64 * 2 + 2);
        ctx.sample(|| format!("{text:?}, {n} symbols, each refused in turn"));
        Ok(())
    })
}
fn invalid() -> Family {
    Family::new("invalid texts", BAD.len() as u64 * 2, |i, ctx| {
        let text = BAD[i as usize / 2];
        check(text, None, if i % 2 == 0 { None } else { Some(0) }, false)?;
        ctx.done(hash(&text), 2);
        Ok(())
    })
}
fn long() -> Family {
    let lens = lengths(130, 5000);
    let n = lens.len() as u64;
    Family::new("long texts", n, move |i, ctx| {
        let l = lens[i as usize];
        let v: Vec<String> = (0..l).map(|k| format!("s{}", k % 97)).collect();
        let r = MRule { left: v.clone(), target: "t".into(), right: v.iter().rev().cloned().collect(), bodies: vec![(Some(0.25), v.clone())] };
        let text = r.text();
        check(&text, Some(&r), None, false)?;
        for k in [0, l, 2 * l, 3 * l] { check(&text, Some(&r), Some(k), false)?; ctx.extra(FAULTS, 1) }
        ctx.done(hash(&l), 10);
        Ok(())
    })
}

/// The stores the library brings: every sequence of texts and questions.
fn bundled(tier: Tier) -> Family {
    static TEXTS: [(&str, bool); 9] = [("X -> a b", true), ("X -> c", true), ("a < X > b -> X X", true), ("X -> a b", true), ("q -> 0.5", true), ("X ->", true), ("p q -> r", false), ("", false), ("v -> 7 w", false)];
    let s = Seqs::new(TEXTS.len() + 2, 0, tier.pick(4, 5));
    Family::new("the cell-based stores, every sequence of texts", s.size(), move |i, ctx| {
        for n in ["X", "a", "b", "c", "q", "p", "r", "v", "w", "alone", "never"] { let _ = Symbol::build(n); }
        let seq = s.get(i);
        let input = || format!("{:?}", seq.iter().map(|k| TEXTS.get(*k).map(|t| t.0).unwrap_or(if *k == TEXTS.len() { "symbol alone" } else { "blank symbol" })).collect::<Vec<_>>());
        let syms: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
        let prods: RefCell<Vec<Production>> = RefCell::new(vec![]);
        let mut have: Vec<String> = vec![];
        let mut want: Vec<MRule> = vec![];
        for k in &seq {
            if *k == TEXTS.len() { oops(syms.add_symbol("alone"), &input())?; have.push("alone".into()); continue }
            if *k == TEXTS.len() + 1 { if syms.add_symbol("\t").is_ok() { return fail(input(), "a blank symbol was accepted") } continue }
            let (t, ok) = TEXTS[*k];
            let got = calm(input, || parse_and_add_production(&syms, &prods, t))?;
            if got.is_ok() != ok { return fail(input(), format!("{t:?} gave {}", if ok { "an error" } else { "success" })) }
            if ok {
                let (h, b) = t.split_once("->").unwrap();
                let b: Vec<String> = words(b);
                let (c, b) = match b.first().and_then(|x| x.parse::<f32>().ok()) { Some(c) => (Some(c), b[1..].to_vec()), None => (None, b) };
                let (l, h) = h.split_once('<').unwrap_or(("", h));
                let (t, r) = h.split_once('>').unwrap_or((h, ""));
                let r = MRule { left: words(l), target: t.trim().into(), right: words(r), bodies: vec![(c, b)] };
                r.is(&got.unwrap()).or_else(|e| fail(input(), format!("returned: {e}")))?;
                have.extend(expected(&r, None).0.into_iter().filter_map(|e| if let Event::Symbol(s) = e { Some(s) } else { None }));
                want.push(r);
            }
        }
        if prods.borrow().len() != want.len() { return fail(input(), format!("{} productions are kept instead of {}", prods.borrow().len(), want.len())) }
        for (p, w) in prods.borrow().iter().zip(&want) { w.is(p).or_else(|e| fail(input(), e))?; }
        for n in ["X", "a", "b", "c", "q", "p", "r", "v", "w", "alone", "never"] {
            let g = syms.get_symbol(n);
            if g.map(|g| g.to_string()) != have.iter().find(|h| *h == n).cloned() { return fail(input(), format!("symbol {n}: found {g:?}")) }
        }
        if syms.get_symbol(" ").is_some() { return fail(input(), "a blank symbol is found") }
        // adding directly
        let p = prods.borrow().first().cloned();
        if let Some(p) = p {
            let q = oops(prods.add_production(p), &input())?;
            want[0].is(&q).or_else(|e| fail(input(), e))?;
            want[0].is(prods.borrow().last().unwrap()).or_else(|e| fail(input(), e))?;
            if prods.borrow().len() != want.len() + 1 { return fail(input(), "a direct add did not add one") }
        }
        ctx.done(hash(&want.iter().map(|r| r.text()).collect::<Vec<_>>()), seq.len() as u64 + 14);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![recorded(), invalid(), long(), bundled(tier)] }

pub const PROPERTY: Property = Property {
    id: "C19", level: "model_checking",
    rule: "Every structured production text is parsed into recording stores that refuse each symbol or the production in turn (all single faults), and every sequence of texts up to the depth into the bundled stores. Distinct states are distinct texts or resulting rule lists.",
    assumptions: &["stores are used from one thread"],
    families,
};
