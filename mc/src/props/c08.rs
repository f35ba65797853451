//! C08: adding rules to a system.
use crate::{bridge::*, engine::*, model, util::*};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead, ProductionStore};
use rusty_systems::symbols::SymbolStore;
use std::collections::BTreeSet;
use vctl::rng::{self, Mode};

type Names = Vec<String>;
/// The reference: rules in order, with the alternatives in order.
#[derive(Clone, Debug, PartialEq)]
pub struct MRule { pub left: Names, pub target: String, pub right: Names, pub bodies: Vec<(Option<f32>, Names)> }
impl MRule {
    fn same_head(&self, o: &MRule) -> bool { self.left == o.left && self.target == o.target && self.right == o.right }
    fn symbols(&self) -> impl Iterator<Item = &String> { self.left.iter().chain([&self.target]).chain(&self.right).chain(self.bodies.iter().flat_map(|b| &b.1)) }
    pub fn text(&self) -> String {
        let l = if self.left.is_empty() { String::new() } else { format!("{} < ", self.left.join(" ")) };
        let r = if self.right.is_empty() { String::new() } else { format!(" > {}", self.right.join(" ")) };
        let b: Vec<String> = self.bodies.iter().map(|(c, s)| format!("{}{}", c.map(|c| format!("{c} ")).unwrap_or_default(), s.join(" "))).collect();
        format!("{l}{}{r} -> {}", self.target, b.join(" | "))
    }
    pub fn build(&self) -> Production {
        let ps = |v: &Names| ProductionString::from(v.iter().map(|n| Symbol::build(n).unwrap()).collect::<Vec<_>>());
        let cx = |v: &Names| if v.is_empty() { None } else { Some(ps(v)) };
        let body = |b: &(Option<f32>, Names)| match b.0 { None => ProductionBody::new(ps(&b.1)), Some(c) => ProductionBody::try_with_chance(c, ps(&b.1)).expect("chance") };
        let mut p = Production::new(ProductionHead::build(cx(&self.left), Symbol::build(&self.target).unwrap(), cx(&self.right)).unwrap(), body(&self.bodies[0]));
        for b in &self.bodies[1..] { p.add_body(body(b)) }
        p
    }
    /// Is `p` this rule? Empty and missing contexts mean the same.
    pub fn is(&self, p: &Production) -> Result<(), String> {
        let names = |s: &ProductionString| -> Names { s.iter().map(|s| s.to_string()).collect() };
        let cx = |s: Option<&ProductionString>| s.map(names).unwrap_or_default();
        let (l, t, r) = (cx(p.head().pre_context()), p.head().target().to_string(), cx(p.head().post_context()));
        if (&l, &t, &r) != (&self.left, &self.target, &self.right) { return Err(format!("the rule's head is {l:?} < {t:?} > {r:?}")) }
        let b: Vec<(Option<f32>, Names)> = p.all_bodies().iter().map(|b| {
            let c = b.chance();
            (if c.is_user_set() { Some(c.unwrap()) } else { None }, names(b.string()))
        }).collect();
        if b != self.bodies { return Err(format!("the rule's alternatives are {b:?} instead of {:?}", self.bodies)) }
        Ok(())
    }
}
fn names(s: &str) -> Names { s.split_whitespace().map(|s| s.to_string()).collect() }
fn rule(l: &str, t: &str, r: &str, bodies: &[(Option<f32>, &str)]) -> MRule {
    MRule { left: names(l), target: t.into(), right: names(r), bodies: bodies.iter().map(|b| (b.0, names(b.1))).collect() }
}

#[derive(Clone, Debug)]
enum Op { Text(&'static str, MRule), Owned(&'static str, MRule), Value(MRule), Bad(&'static str), BadValue, Again, Sym(&'static str), BadSym(&'static str) }

fn pool() -> Vec<Op> {
    use Op::*;
    vec![
        Text("A -> A B", rule("", "A", "", &[(None, "A B")])),
        Owned("A -> 0.5 C D", rule("", "A", "", &[(Some(0.5), "C D")])),
        Text("A ->", rule("", "A", "", &[(None, "")])),
        Text("B < A -> C", rule("B", "A", "", &[(None, "C")])),
        Text("A > B -> 0.25 E", rule("", "A", "B", &[(Some(0.25), "E")])),
        Value(rule("B", "A", "B", &[(None, "C"), (Some(0.125), "A"), (None, "")])),
        Value(rule("", "B", "", &[(None, "F F")])),
        Text("A B < A -> G", rule("A B", "A", "", &[(None, "G")])),
        Bad("A B -> C"), Bad("H -> 2 H"), Bad("H I"), BadValue, Again, Sym("S"), BadSym(" "),
    ]
}
const ALL: [&str; 12] = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "S", "T", "A B"];

struct Refuses;
impl TryFrom<Refuses> for Production { type Error = Error; fn try_from(_: Refuses) -> Result<Production, Error> { Err(Error::general("no")) } }

/// The reference system.
#[derive(Clone, Default)]
struct Model { rules: Vec<MRule>, symbols: BTreeSet<String> }
impl Model {
    fn add(&mut self, r: &MRule) -> MRule {
        self.symbols.extend(r.symbols().cloned());
        match self.rules.iter_mut().find(|x| x.same_head(r)) {
            Some(x) => { x.bodies.extend(r.bodies.iter().cloned()); x.clone() }
            None => { self.rules.push(r.clone()); r.clone() }
        }
    }
    fn counts(&self, sys: &System, input: &dyn Fn() -> String) -> Case {
        if sys.production_len() != self.rules.len() { return fail(input(), format!("the system counts {} rules instead of {}", sys.production_len(), self.rules.len())) }
        if sys.symbol_len() != self.symbols.len() { return fail(input(), format!("the system counts {} symbols instead of {}: {:?}", sys.symbol_len(), self.symbols.len(), self.symbols)) }
        for n in ALL {
            match (sys.get_symbol(n), self.symbols.contains(n)) {
                (Some(s), true) if s.to_string() == n => {}
                (None, false) => {}
                (g, w) => return fail(input(), format!("symbol {n:?}: found {:?}, should be {w}", g.map(|g| g.to_string()))),
            }
        }
        Ok(())
    }
    /// Which rule rewrites each position shows in what a step may give.
    fn priorities(&self, sys: &System, strings: &[Vec<usize>], words: &[u64], input: &dyn Fn() -> String) -> Case {
        if self.rules.iter().any(|r| r.bodies.len() > 1 && r.bodies.iter().map(|b| b.0.unwrap_or(0.0)).sum::<f32>() > 1.0) { return Ok(()) }
        for s in strings {
            let s: Names = s.iter().map(|i| ALL[*i].to_string()).collect();
            let ps = ProductionString::from(s.iter().map(|n| Symbol::build(n).unwrap()).collect::<Vec<_>>());
            let mut poss: BTreeSet<Names> = BTreeSet::from([vec![]]);
            for i in 0..s.len() {
                let one = vec![(None, vec![s[i].clone()])];
                let ch = self.rules.iter().find(|r| model::matches(&r.left, &r.target, &r.right, &s, i)).map(|r| &r.bodies).unwrap_or(&one);
                poss = poss.iter().flat_map(|p| ch.iter().map(move |c| p.iter().chain(&c.1).cloned().collect())).collect();
            }
            for w in words {
                rng::set(Mode::Words { words: vec![*w; 8], pos: 0, draws: 0 });
                let r = calm(input, || sys.derive_once(ps.clone()));
                rng::set(Mode::Free);
                match r? {
                    Ok(g) => {
                        let g: Names = g.iter().map(|s| s.to_string()).collect();
                        if !poss.contains(&g) { return fail(input(), format!("one step from {s:?} gives {g:?}, which the rules do not allow")) }
                    }
                    Err(e) => return fail(input(), format!("one step from {s:?} fails: {e}")),
                }
            }
        }
        Ok(())
    }
}

fn histories(tier: Tier) -> Family {
    let ops = pool();
    let seqs = Seqs::new(ops.len(), 0, tier.pick(4, 5));
    let strs = Seqs::new(2, 1, 3);
    let strings: Vec<Vec<usize>> = (0..strs.size()).map(|i| strs.get(i)).collect();
    let words: Vec<u64> = (0..4).map(|i| rng::midpoint(i, 4)).collect();
    Family::new("histories of adds on a new system", seqs.size(), move |i, ctx| {
        for n in ALL { let _ = Symbol::build(n); }
        let seq = seqs.get(i);
        let input = || format!("{:?}", seq.iter().map(|k| ops[*k].clone()).collect::<Vec<_>>());
        let (sys, other) = (System::new(), System::default());
        let mut m = Model::default();
        let mut last: Option<(MRule, Production)> = None;
        for (k, op) in seq.iter().enumerate() {
            let (want, got) = match &ops[*op] {
                Op::Text(t, r) => (Some(r.clone()), calm(input, || sys.add_production(*t))?),
                Op::Owned(t, r) => (Some(r.clone()), calm(input, || sys.add_production(t.to_string()))?),
                Op::Value(r) => (Some(r.clone()), calm(input, || sys.add_production(r.build()))?),
                Op::Bad(t) => (None, calm(input, || sys.add_production(*t))?),
                Op::BadValue => (None, calm(input, || sys.add_production(Refuses))?),
                Op::Again => match &last { None => continue, Some((r, p)) => (Some(r.clone()), calm(input, || sys.add_production(p.clone()))?) },
                Op::Sym(n) => {
                    match calm(input, || sys.add_symbol(*n))? { Ok(s) if s.to_string() == *n => { m.symbols.insert(n.to_string()); } o => return fail(input(), format!("adding symbol {n} gave {o:?}")) }
                    continue
                }
                Op::BadSym(n) => { if calm(input, || sys.add_symbol(*n))?.is_ok() { return fail(input(), format!("the blank symbol {n:?} was accepted")) } continue }
            };
            match (want, got) {
                (None, Err(_)) => {}
                (None, Ok(_)) => return fail(input(), format!("call {k} was accepted")),
                (Some(r), Err(e)) => return fail(input(), format!("adding {} failed: {e}", r.text())),
                (Some(r), Ok(p)) => {
                    let res = m.add(&r);
                    res.is(&p).or_else(|e| fail(input(), format!("call {k} returned a wrong rule: {e}")))?;
                    last = Some((res, p));
                }
            }
            if k + 1 == seq.len() { m.counts(&sys, &input)? }
        }
        m.counts(&sys, &input)?;
        m.priorities(&sys, &strings, &words, &input)?;
        if other.production_len() != 0 || other.symbol_len() != 0 || ALL.iter().any(|n| other.get_symbol(n).is_some()) { return fail(input(), "another system was changed") }
        // every rule still has all of its alternatives: one more is added to each
        for r in m.rules.clone() {
            let extra = MRule { bodies: vec![(Some(0.5), names("T"))], ..r };
            let want = m.add(&extra);
            let p = oops(sys.add_production(extra.build()), &input())?;
            want.is(&p).or_else(|e| fail(input(), format!("at the end: {e}")))?;
        }
        m.counts(&sys, &input)?;
        let shape: Vec<String> = m.rules.iter().map(|r| r.text()).collect();
        ctx.done(hash(&shape), seq.len() as u64 + 60);
        ctx.sample(|| format!("{} => {shape:?}", input()));
        Ok(())
    })
}

/// Heads whose symbols' codes differ in every small way: a rule whose context is one symbol of a
/// window of names twice, and another with any two of the window.
fn neighbours(tier: Tier) -> Family {
    let w = tier.pick(260usize, 600);
    Family::new("heads with all neighbouring codes", w as u64 * 6, move |i, ctx| {
        let (i, side) = ((i / 6) as usize, i % 6);
        let all: Vec<Symbol> = (0..w).map(|k| Symbol::build(format!("w{k}")).unwrap()).collect();
        let t = all[w / 2];
        let head = |a: Symbol, b: Symbol| match side {
            0 => ProductionHead::build(Some(ProductionString::from(vec![a, b])), t, None),
            1 => ProductionHead::build(None, t, Some(ProductionString::from(vec![a, b]))),
            2 => ProductionHead::build(Some(ProductionString::from(a)), t, Some(ProductionString::from(b))),
            3 => ProductionHead::build(Some(ProductionString::from(a)), b, None),
            4 => ProductionHead::build(None, a, Some(ProductionString::from(b))),
            _ => ProductionHead::build(Some(ProductionString::from(vec![all[1], a])), b, Some(ProductionString::from(all[2]))),
        }.unwrap();
        let rule = |a: Symbol, b: Symbol| Production::new(head(a, b), ProductionBody::empty());
        let first = rule(t, t);
        for d in &all {
            let sys = System::new();
            let other = rule(all[i], *d);
            let input = || format!("rules with {t} {t} and {} {d} in their heads (shape {side})", all[i]);
            oops(calm(input, || sys.add_production(first.clone()))?, &input())?;
            let p = oops(calm(input, || sys.add_production(other.clone()))?, &input())?;
            let same = all[i].code() == t.code() && d.code() == t.code();
            if sys.production_len() != 2 - same as usize { return fail(input(), format!("they count as {}", sys.production_len())) }
            if p.all_bodies().len() != 1 + same as usize { return fail(input(), format!("the second has {} alternatives", p.all_bodies().len())) }
        }
        ctx.state(hash(&(i, side)));
        ctx.trans(w as u64 * 2);
        ctx.validated(w as u64);
        Ok(())
    }).chunk(16)
}

/// Many alternatives, many rules, many symbols, long strings.
fn sizes(tier: Tier) -> Family {
    let lens = lengths(tier.pick(140, 300), tier.pick(2100, 10_000));
    let n = lens.len() as u64 * 5;
    Family::new("systems of every size", n, move |i, ctx| {
        let (l, kind) = (lens[(i / 5) as usize], i % 5);
        let sys = System::new();
        let nm = |k: usize| format!("n{k}");
        let input = || format!("size {l}, kind {kind}");
        let mut m = Model::default();
        let mut adds: Vec<MRule> = match kind {
            // alternatives one by one; rules one by one; a rule with this many alternatives, twice
            0 => (0..l).map(|k| rule("", "A", "", &[(None, &nm(k))])).collect(),
            1 => (0..l).map(|k| rule("", &nm(k), "", &[(None, "A")])).collect(),
            2 => { let mut r = rule("", "A", "B", &[(None, "")]); r.bodies = (0..=l).map(|k| (if k % 2 == 0 { None } else { Some(0.001) }, vec![nm(k)])).collect(); vec![r.clone(), r] }
            // long contexts and replacements; then the same head again and a head that differs at the far end
            3 => {
                let c: Names = (0..l).map(|k| nm(k % 5)).collect();
                let r = MRule { left: c.clone(), target: "A".into(), right: c.clone(), bodies: vec![(None, c.clone())] };
                let mut far = r.clone(); far.right.push("Z".into());
                let mut near = r.clone(); near.left.insert(0, "Z".into());
                vec![r.clone(), far, near, r]
            }
            // rules that share a target and differ in context
            _ => (0..l).map(|k| rule(&nm(k), "A", &nm(k / 2), &[(None, "A")])).collect(),
        };
        if !adds.is_empty() { let d = adds[adds.len() / 2].clone(); adds.push(d); let d = adds[0].clone(); adds.push(d); }
        let total = adds.len();
        for (k, r) in adds.iter().enumerate() {
            // every intermediate rule is compared while that is cheap
            let want = m.add(r);
            let p = oops(calm(input, || sys.add_production(r.build()))?, &input())?;
            if l <= 300 || k + 4 > total { want.is(&p).or_else(|e| fail(input(), format!("add {k}: {}", show(&e))))?; }
            if k % 64 == 0 { ctx.beat() }
        }
        if sys.production_len() != m.rules.len() { return fail(input(), format!("{} rules instead of {}", sys.production_len(), m.rules.len())) }
        if sys.symbol_len() != m.symbols.len() { return fail(input(), format!("{} symbols instead of {}", sys.symbol_len(), m.symbols.len())) }
        for s in &m.symbols { if sys.get_symbol(s).map(|x| x.to_string()).as_ref() != Some(s) { return fail(input(), format!("symbol {s} is not found")) } }
        // the order of the rules shows in what they do
        if kind == 1 || kind == 4 { for r in &m.rules {
            let s: Names = r.left.iter().chain([&r.target]).chain(&r.right).cloned().collect();
            let ps = ProductionString::from(s.iter().map(|n| Symbol::build(n).unwrap()).collect::<Vec<_>>());
            let want: Names = (0..s.len()).flat_map(|i| m.rules.iter().find(|r| model::matches(&r.left, &r.target, &r.right, &s, i)).map(|r| r.bodies[0].1.clone()).unwrap_or(vec![s[i].clone()])).collect();
            let g = oops(sys.derive_once(ps), &input())?;
            if g.to_string() != want.join(" ") { return fail(input(), format!("one step from {s:?} gives {g} instead of {want:?}")) }
            if l > 300 { break }
        } }
        ctx.done(hash(&(kind, l)), total as u64);
        Ok(())
    }).patience(120)
}

/// Rules with very many alternatives, as a value and merged from two halves, and very long ones as text; the symbols of each are counted.
fn crowded(tier: Tier) -> Family {
    let mut sizes = vec![1000u64, 5000, 20_000, 120_000, 400_000];
    if tier == Tier::Thorough { sizes.extend([250_000, 1_000_000]) }
    Family::new("rules with very many alternatives", sizes.len() as u64 * 3, move |i, ctx| {
        let (l, kind) = (sizes[(i / 3) as usize], i % 3);
        let input = || format!("{l} alternatives (or symbols), kind {kind}");
        let sys = System::new();
        // every hundredth alternative has a symbol of its own
        let nm = |k: u64| if k % 100 == 0 { format!("m{k}") } else { "B".to_string() };
        let all = |from: u64, to: u64| MRule { left: names("L"), target: "A".into(), right: vec![], bodies: (from..to).map(|k| (None, vec![nm(k)])).collect() };
        let whole = all(0, l);
        let add = |p: Production| -> Result<Production, Fail> { oops(calm(input, || sys.add_production(p))?, &input()) };
        // a text has one alternative: as many symbols instead
        let whole = if kind == 1 { MRule { bodies: vec![(None, (0..l).map(nm).collect())], ..whole } } else { whole };
        let got = match kind {
            0 => add(whole.build())?,
            1 => { let t = whole.text(); oops(calm(input, || sys.add_production(t.as_str()))?, &input())? }
            _ => { add(all(0, l / 2).build())?; ctx.beat(); add(all(l / 2, l).build())? }
        };
        ctx.beat();
        whole.is(&got).or_else(|e| fail(input(), e.chars().take(300).collect::<String>()))?;
        if sys.production_len() != 1 { return fail(input(), format!("{} rules instead of one", sys.production_len())) }
        let want = 2 + (l as usize).div_ceil(100) + 1;
        if sys.symbol_len() != want { return fail(input(), format!("{} symbols instead of {want}", sys.symbol_len())) }
        for k in (0..l).step_by(100).chain([1]) { if sys.get_symbol(&nm(k)).is_none() { return fail(input(), format!("symbol {} is missing", nm(k))) } }
        ctx.done(hash(&(kind, l)), l);
        Ok(())
    }).patience(60)
}

/// Every rule with a few alternatives, with every mix of chances, given to a system as a value: in
/// one piece, and in two pieces that are merged there.
fn values(tier: Tier) -> Family {
    const CHANCES: [Option<f32>; 7] = [None, Some(0.25), Some(0.5), Some(1.0), Some(1e-6), Some(0.9999), Some(0.1)];
    let seqs = Seqs::new(CHANCES.len() * 3, 1, tier.pick(3, 4));
    Family::new("rules of every mix of alternatives, as values", seqs.size() * 4, move |i, ctx| {
        let (seq, cx) = (seqs.get(i / 4), i % 4);
        // every alternative has symbols of its own, or the same as the first, or none
        let bodies: Vec<(Option<f32>, Names)> = seq.iter().enumerate().map(|(k, x)| (CHANCES[x / 3], match x % 3 { 0 => vec![], 1 => vec!["v".to_string()], _ => vec![format!("v{k}"), "v".into(), format!("w{k}")] })).collect();
        let whole = MRule { left: names(if cx & 1 != 0 { "L" } else { "" }), target: "A".into(), right: names(if cx & 2 != 0 { "R L" } else { "" }), bodies };
        let input = || format!("the rule {}", whole.text());
        for cut in 0..whole.bodies.len() {
            let sys = System::new();
            let mut got = None;
            for part in [&whole.bodies[..cut], &whole.bodies[cut..]] {
                if part.is_empty() { continue }
                let p = MRule { bodies: part.to_vec(), ..whole.clone() }.build();
                got = Some(oops(calm(input, || sys.add_production(p))?, &input())?);
            }
            whole.is(&got.unwrap()).or_else(|e| fail(format!("{}, alternatives from {cut} on added later", input()), e))?;
            let want: BTreeSet<&String> = whole.symbols().collect();
            if sys.production_len() != 1 || sys.symbol_len() != want.len() { return fail(input(), format!("the system has {} rules and {} symbols instead of 1 and {}", sys.production_len(), sys.symbol_len(), want.len())) }
            for n in want { if sys.get_symbol(n).map(|s| s.to_string()).as_ref() != Some(n) { return fail(input(), format!("symbol {n} is not found")) } }
        }
        ctx.done(hash(&(seq, cx)), whole.bodies.len() as u64);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![histories(tier), values(tier), sizes(tier), crowded(tier), neighbours(tier)] }

pub const PROPERTY: Property = Property {
    id: "C08", level: "model_checking",
    rule: "Every history of adds up to the depth, from a pool with merging, failing and repeated adds, on a new system, each step compared with a reference list of rules and set of symbols; the final rules are read back by one more add each; every rule with a few alternatives of every mix of chances, in one piece or two; systems and rules of growing size, to 400,000 alternatives. Distinct states are distinct final rule lists (or sizes).",
    assumptions: &["a missing and an empty context are not told apart", "adds fail only on bad text, a refusing conversion or a blank symbol"],
    families,
};
