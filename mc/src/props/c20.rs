//! C20: families and the systems made from them.
use crate::{bridge::*, engine::*, util::*};
use rusty_systems::interpretation::{abop::{abop_family, AbopSvgInterpretation, AbopTurtleInterpretation}, Interpretation};
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::{self, SymbolDescription, TryIntoFamily};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// (terminal?, name, description)
type Entry = (bool, String, Option<String>);
type Listed = BTreeMap<String, Option<String>>;

fn builder(d: &[Entry]) -> family::Builder {
    d.iter().fold(SystemFamily::define(), |b, (t, n, s)| if *t { b.with_terminal(n.as_str(), s.as_deref()) } else { b.with_production(n.as_str(), s.as_deref()) })
}
fn wanted(d: &[Entry], terminal: bool) -> Listed { d.iter().filter(|e| e.0 == terminal).map(|e| (e.1.clone(), e.2.clone())).collect() }
fn listed<'a>(it: impl Iterator<Item = &'a SymbolDescription>) -> Vec<(String, Option<String>)> {
    let mut v: Vec<_> = it.map(|s| (s.name.clone(), s.description.clone())).collect();
    v.sort();
    v
}
fn lists(f: &SystemFamily, d: &[Entry], name: &str, input: &str) -> Case {
    if f.name() != name { return fail(input, format!("is called {}", show(f.name()))) }
    let (t, p): (Vec<_>, Vec<_>) = (wanted(d, true).into_iter().collect(), wanted(d, false).into_iter().collect());
    let mut all = [t.clone(), p.clone()].concat();
    all.sort();
    for (what, got, want) in [("terminals", listed(f.terminals()), t), ("productions", listed(f.productions()), p), ("symbols", listed(f.symbols()), all)] {
        if got != want { return fail(input, format!("lists the {what} {got:?} instead of {want:?}")) }
    }
    Ok(())
}
fn alphabet(d: &[Entry]) -> Option<BTreeSet<String>> {
    let s: BTreeSet<String> = d.iter().map(|e| e.1.trim().to_string()).collect();
    if s.contains("") { None } else { Some(s) }
}
const ASKED: [&str; 9] = ["a", "b", "b c", "日本", "Forward", "A", "aa", "x", "never"];
fn knows(s: &System, syms: &BTreeSet<String>, rules: usize, input: &str) -> Case {
    if s.symbol_len() != syms.len() || s.production_len() != rules { return fail(input, format!("has {} symbols and {} rules instead of {} and {rules}", s.symbol_len(), s.production_len(), syms.len())) }
    for n in ASKED.iter().map(|n| n.to_string()).chain(syms.iter().cloned()) {
        let g = s.get_symbol(&n);
        if g.is_some() != syms.contains(&n) { return fail(input, format!("knows {}: {}", show(&n), g.is_some())) }
        if let Some(g) = g { if Symbol::build(&n).ok() != Some(g) { return fail(input, format!("has another symbol for {}", show(&n))) } }
    }
    Ok(())
}
fn text(d: &[Entry]) -> String { format!("[{}]", d.iter().map(|e| format!("{} {:?}{}", if e.0 { "terminal" } else { "production" }, e.1, e.2.as_ref().map(|s| format!(" ({s})")).unwrap_or_default())).collect::<Vec<_>>().join(", ")) }

/// Every way of making a system from a definition.
fn ways(d: &[Entry], tag: &str) -> Case {
    let input = format!("family {}", text(d));
    let want = alphabet(d);
    let build = |n: &str| oops(calm(|| input.clone(), || builder(d).build(n))?, &input);
    let f = build(tag)?;
    lists(&f, d, tag, &input)?;
    lists(&f.clone(), d, tag, &input)?;
    let arc = Arc::new(f.clone());
    let reg = oops(if d.len() % 2 == 0 { builder(d).register(tag) } else { family::register(f.clone()) }, &input)?;
    lists(&reg, d, tag, &input)?;
    let made: Vec<(&str, Result<System, Error>)> = vec![
        ("by value", calm(|| input.clone(), || System::of_family(f.clone()))?),
        ("by pointer", calm(|| input.clone(), || System::of_family(arc.clone()))?),
        ("by name", calm(|| input.clone(), || System::of_family(tag))?),
        ("by owned name", calm(|| input.clone(), || System::of_family(tag.to_string()))?),
        ("by registered pointer", calm(|| input.clone(), || System::of_family(reg.clone()))?),
        ("by value, again", System::of_family(f.clone())),
    ];
    let mut systems = vec![];
    for (how, s) in made {
        let input = format!("{input} {how}");
        match (s, &want) {
            (Err(_), None) => {}
            (Ok(_), None) => return fail(input, "a blank symbol name was accepted"),
            (Err(e), Some(_)) => return fail(input, format!("failed: {e}")),
            (Ok(s), Some(w)) => { knows(&s, w, 0, &input)?; systems.push(s) }
        }
    }
    // none of them sees what is done to another
    if let Some(w) = &want {
        for k in 0..systems.len() {
            let input = format!("{input}: adding to system {k}");
            oops(systems[k].add_symbol("x"), &input)?;
            oops(systems[k].add_production("aa -> x never"), &input)?;
            let mut more = w.clone();
            for n in ["x", "aa", "never"] { more.insert(n.into()); }
            for j in 0..systems.len() { if j <= k { knows(&systems[j], &more, 1, &input)? } else { knows(&systems[j], w, 0, &input)? } }
            lists(&reg, d, tag, &input)?;
            knows(&oops(System::of_family(tag), &input)?, w, 0, &input)?;
        }
    }
    for (n, f) in [("by name", tag.into_family()), ("by owned name", tag.to_string().into_family()), ("looked up", family::get_family(tag).ok_or_else(|| Error::general("not found")))] {
        let f = oops(f, &format!("{input} {n}"))?;
        if !Arc::ptr_eq(&f, &reg) { return fail(format!("{input} {n}"), "is not the registered family") }
    }
    let own = oops(arc.clone().into_family(), &input)?;
    lists(&own, d, tag, &input)?;
    lists(&*oops(f.into_family(), &input)?, d, tag, &input)
}

const NAMES: [&str; 7] = ["a", "b", "b c", "日本", " a ", "", "Forward"];
const DESC: [Option<&str>; 3] = [None, Some("one"), Some("")];

fn definitions(tier: Tier) -> Family {
    let kinds = NAMES.len() * DESC.len() * 2;
    let s = Seqs::new(kinds, 0, tier.pick(2, 3));
    Family::new("every definition, every way of making systems from it", s.size(), move |i, ctx| {
        let d: Vec<Entry> = s.get(i).into_iter().map(|k| (k % 2 == 0, NAMES[k / 2 % NAMES.len()].to_string(), DESC[k / 2 / NAMES.len()].map(|s| s.to_string()))).collect();
        ways(&d, &format!("c20 def {i}"))?;
        ctx.done(hash(&d), 20);
        ctx.sample(|| text(&d));
        Ok(())
    })
}

/// Without descriptions, deeper.
fn orders(tier: Tier) -> Family {
    let s = Seqs::new(8, 0, tier.pick(4, 5));
    Family::new("longer definitions", s.size(), move |i, ctx| {
        let v = s.get(i);
        let d: Vec<Entry> = v.iter().enumerate().map(|(at, k)| (k % 2 == 0, NAMES[k / 2].to_string(), Some(format!("number {at}")))).collect();
        ways(&d, &format!("c20 order {i}"))?;
        ctx.done(hash(&v), 20);
        Ok(())
    })
}

/// Descriptions and names made of every pair of printable characters, and of every character: what
/// a symbol is called or said to be has no other meaning.
fn texts() -> Family {
    const PRINT: u64 = 95;
    let chars = 0x3000u64;
    const OWN: [&str; 16] = ["EOS", "initial:", "0.5", "1", "-1", "NaN", "delta = 3", "n", "#", "->x", "[[", "()", "<<", ">>", "true", "X -> Y"];
    Family::new("every short description and name", PRINT * PRINT + chars + chars + OWN.len() as u64, move |i, ctx| {
        let t = if i < PRINT * PRINT { format!("{}{}", (b' ' + (i / PRINT) as u8) as char, (b' ' + (i % PRINT) as u8) as char) } else if i < PRINT * PRINT + chars { match char::from_u32((i - PRINT * PRINT) as u32) { Some(c) => format!("{c}a"), None => return Ok(()) } }
            else if i < PRINT * PRINT + 2 * chars { match char::from_u32((i - PRINT * PRINT - chars) as u32) { Some(c) => c.to_string(), None => return Ok(()) } } else { OWN[(i - PRINT * PRINT - 2 * chars) as usize].to_string() };
        let long = format!("{t}x never {t}");
        let d: Vec<Entry> = vec![(true, t.clone(), Some("b".into())), (i % 2 == 0, "a".into(), Some(t.clone())), (i % 2 == 1, "b".into(), Some(long.clone())), (true, long.clone(), None)];
        let input = format!("family {}", text(&d));
        let f = oops(builder(&d).build("c20 texts"), &input)?;
        lists(&f, &d, "c20 texts", &input)?;
        match (calm(|| input.clone(), || System::of_family(f))?, alphabet(&d)) {
            (Ok(s), Some(w)) => knows(&s, &w, 0, &input)?,
            (Err(_), None) => {}
            (Ok(_), None) => return fail(input, "a blank symbol name was accepted"),
            (Err(e), Some(_)) => return fail(input, format!("failed: {e}")),
        }
        // a family may be called so, too
        if !t.trim().is_empty() { let f = oops(builder(&d).build(&t), &input)?; lists(&f, &d, &t, &format!("{input} called {t:?}"))?; }
        ctx.done(hash(&t), 3);
        Ok(())
    })
}

fn many(tier: Tier) -> Family {
    let l = lengths(tier.pick(200, 600), tier.pick(1 << 12, 1 << 15));
    Family::new("families of every size", l.len() as u64 * 2, move |i, ctx| {
        let n = l[i as usize / 2];
        let mut d: Vec<Entry> = (0..n).map(|k| (k % 3 == 0, format!("m{k}"), if k % 2 == 0 { None } else { Some(format!("d{k}")) })).collect();
        // and everything given a second time
        if i % 2 == 1 { for k in 0..n { d.push((k % 3 == 0, format!("m{k}"), Some(format!("second {k}")))) } }
        let tag = format!("c20 many {i}");
        let input = format!("a family of {n} symbols{}", if i % 2 == 1 { ", each given twice" } else { "" });
        let f = oops(builder(&d).register(&tag), &input)?;
        lists(&f, &d, &tag, &input)?;
        let w = alphabet(&d).unwrap();
        knows(&oops(System::of_family(tag.as_str()), &input)?, &w, 0, &input)?;
        knows(&oops(System::of_family(f), &input)?, &w, 0, &input)?;
        // a blank name anywhere makes an error
        if n <= 200 { for at in 0..=n { let mut e = d.clone(); e.insert(at, (at % 2 == 0, ["", " ", "\t\n"][at % 3].into(), None)); let f = oops(builder(&e).build("x"), &input)?; if System::of_family(f).is_ok() { return fail(format!("{input}, a blank one at {at}"), "was accepted") } } }
        ctx.done(hash(&i), 2);
        ctx.beat();
        Ok(())
    }).patience(60)
}

/// Names that are nearly the same are different symbols.
fn near(tier: Tier) -> Family {
    let mut bases: Vec<String> = ["Forward", "X", "ab", "b c", "a-b_c.d", "é日本", "Straße", "🌿🌿", "\"q\"", "ǅ İ", "tab\tin", "->", "never"].map(String::from).to_vec();
    bases.extend(lengths(tier.pick(20, 80), tier.pick(1 << 10, 1 << 14)).into_iter().skip(1).map(|l| "name of a symbol ".chars().cycle().take(l - 1).chain(['z']).collect()));
    Family::new("a symbol and every name that is nearly its own", bases.len() as u64 * 4, move |i, ctx| {
        let base = &bases[i as usize / 4];
        let near = near_names_of(base);
        let kind = |k: usize| match i % 4 { 0 => true, 1 => false, 2 => k % 2 == 0, _ => k == 0 };
        // all of them in one family, and each with it alone
        let all: Vec<Entry> = std::iter::once(base).chain(&near).enumerate().map(|(k, n)| (kind(k), n.clone(), if k % 3 == 0 { None } else { Some(format!("number {k}")) })).collect();
        let input = format!("{} and {} names like it", show(base), near.len());
        ways(&all, &format!("c20 near {i}"))?;
        for (k, n) in near.iter().enumerate() {
            let d: Vec<Entry> = vec![(kind(0), base.clone(), Some("base".into())), (kind(k + 1), n.clone(), None)];
            let d = if k % 2 == 0 { d } else { d.into_iter().rev().collect() };
            let f = oops(builder(&d).build("c20 pair"), &input)?;
            lists(&f, &d, "c20 pair", &format!("family {}", text(&d)))?;
            knows(&oops(System::of_family(f), &input)?, &alphabet(&d).unwrap(), 0, &format!("family {}", text(&d)))?;
            // and asking for one of them does not find the other
            let d = &d[..1];
            let s = oops(System::of_family(oops(builder(d).build("c20 one"), &input)?), &input)?;
            let want = alphabet(d).unwrap();
            for m in [base, n] { if s.get_symbol(m).is_some() != want.contains(m) && m.trim() == *m { return fail(format!("family {}", text(d)), format!("knows {}: {}", show(m), !want.contains(m))) } }
        }
        ctx.done(hash(&(base, i % 4)), near.len() as u64);
        ctx.beat();
        Ok(())
    }).patience(60)
}

fn blank_names() -> Family {
    const BLANK: [&str; 8] = ["", " ", "\t", "\n", "  \u{a0}", "\u{3000}", "\r\n", "\u{2003} "];
    Family::new("blank family names; unregistered names", 8, |i, ctx| {
        let n = BLANK[i as usize];
        let d: Vec<Entry> = vec![(true, "a".into(), None)];
        for k in 0..2 {
            let b = || builder(&d[..k]);
            if calm(|| show(n), || b().build(n))?.is_ok() { return fail(show(n), "a blank family name was accepted by build") }
            if calm(|| show(n), || b().register(n))?.is_ok() { return fail(show(n), "a blank family name was accepted by register") }
        }
        for n in [n, "c20 nobody", "c20 nobod", "ABOP "] {
            if calm(|| show(n), || System::of_family(n))?.is_ok() || System::of_family(n.to_string()).is_ok() || n.into_family().is_ok() || family::get_family(n).is_some() || family::family_exists(n) { return fail(show(n), "was found without being registered") }
        }
        ctx.done(i, 12);
        Ok(())
    })
}

/// What the model knows of a system: its symbols and the number of its rules.
#[derive(Clone)]
struct Known { syms: BTreeSet<String>, heads: BTreeSet<String> }

fn histories(tier: Tier) -> Family {
    let defs: [Vec<Entry>; 3] = [vec![], vec![(true, "a".into(), None), (false, "b".into(), Some("bee".into()))], vec![(true, "b".into(), None), (true, "".into(), None)]];
    let ops = 2 * 3 * 2 + 2 * 3 + 2 + 3 + 4;
    let s = Seqs::new(ops, 0, tier.pick(3, 4));
    Family::new("every history of registering, getting and using", s.size(), move |i, ctx| {
        let v = s.get(i);
        let names = [format!("c20 hist {i}"), format!("c20 hist {i} ")];
        let mut reg: [Option<(Arc<SystemFamily>, usize)>; 2] = [None, None];
        let mut systems: Vec<(System, Known)> = vec![];
        let mut said: Vec<String> = vec![];
        for op in &v {
            let op = *op;
            let mut make: Option<(Result<System, Error>, Option<usize>)> = None;
            let note;
            if op < 18 {
                let (n, d) = (op % 2, op / 2 % 3);
                let how = op / 6;
                note = format!("{} {:?} under name {n}", ["register", "register built", "get or init"][how], text(&defs[d]));
                let got = match how {
                    0 => builder(&defs[d]).register(&names[n]),
                    1 => builder(&defs[d]).build(&names[n]).and_then(family::register),
                    _ => Ok(family::get_or_init_family(&names[n], || builder(&defs[d]).build(&names[n]).unwrap())),
                };
                said.push(note);
                let input = said.join("; ");
                match (&reg[n], got) {
                    (Some(_), Ok(_)) if how < 2 => return fail(input, "registered a second time"),
                    (Some(_), Err(_)) if how < 2 => {}
                    (Some((f, _)), Ok(g)) => if !Arc::ptr_eq(f, &g) { return fail(input, "get or init gave another family") },
                    (None, Ok(g)) => { lists(&g, &defs[d], &names[n], &input)?; reg[n] = Some((g, d)) }
                    (_, Err(e)) => return fail(input, format!("failed: {e}")),
                }
            } else if op < 20 {
                let n = op - 18;
                said.push(format!("system by name {n}"));
                make = Some((if said.len() % 2 == 0 { System::of_family(names[n].as_str()) } else { System::of_family(names[n].clone()) }, reg[n].as_ref().map(|r| r.1)));
            } else if op < 23 {
                let d = op - 20;
                said.push(format!("system by value {}", text(&defs[d])));
                make = Some((System::of_family(oops(builder(&defs[d]).build("v"), "build")?), Some(d)));
            } else if let Some(k) = systems.len().checked_sub(1) {
                let k = if op % 2 == 0 { k } else { 0 };
                let input = said.join("; ");
                if op < 25 { said.push(format!("symbol to system {k}")); oops(systems[k].0.add_symbol("x"), &input)?; systems[k].1.syms.insert("x".into()); }
                else { said.push(format!("rule to system {k}")); oops(systems[k].0.add_production("a -> b aa"), &input)?; for n in ["a", "b", "aa"] { systems[k].1.syms.insert(n.into()); } systems[k].1.heads.insert("a".into()); }
            }
            let input = said.join("; ");
            if let Some((got, d)) = make {
                match (got, d.and_then(|d| alphabet(&defs[d]))) {
                    (Ok(s), Some(w)) => systems.push((s, Known { syms: w, heads: BTreeSet::new() })),
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail(input, "a system was made from nothing known, or from a blank symbol"),
                    (Err(e), Some(_)) => return fail(input, format!("failed: {e}")),
                }
            }
            for n in 0..2 {
                let g = family::get_family(&names[n]);
                if g.is_some() != reg[n].is_some() || family::family_exists(&names[n]) != reg[n].is_some() { return fail(input, format!("name {n} found: {}", g.is_some())) }
                if let (Some(g), Some((f, d))) = (g, &reg[n]) { if !Arc::ptr_eq(&g, f) { return fail(input, format!("name {n} is another family")) } lists(&g, &defs[*d], &names[n], &input)? }
            }
            for (k, (s, w)) in systems.iter().enumerate() { knows(s, &w.syms, w.heads.len(), &format!("{input}: system {k}"))? }
        }
        ctx.done(hash(&v), v.len() as u64);
        ctx.sample(|| said.join("; "));
        Ok(())
    })
}

fn turtle() -> Family {
    Family::new("the turtle's family", 4, |i, ctx| {
        let want: BTreeSet<String> = ["[", "]", "+", "-", "Forward", "Move", "X"].iter().map(|s| s.to_string()).collect();
        if i == 1 { let _ = family::register(abop_family()); }
        if i == 2 { let _ = family::get_or_init_family("ABOP", abop_family); }
        for _ in 0..2 {
            for s in [AbopTurtleInterpretation::system(), AbopSvgInterpretation::system()] {
                let s = oops(s, "the turtle's system")?;
                knows(&s, &want, 0, "the turtle's system")?;
                oops(s.add_production("X -> never"), "the turtle's system")?;
            }
        }
        let s = oops(System::of_family("ABOP"), "the turtle's system by name")?;
        knows(&s, &want, 0, "the turtle's system by name")?;
        let f = abop_family();
        if f.name() != "ABOP" || f.symbols().count() != 7 || f.terminals().map(|s| s.name.as_str()).collect::<BTreeSet<_>>() != ["[", "]", "+", "-"].into_iter().collect() { return fail("the turtle's family", "lists other symbols") }
        ctx.done(i, 6);
        Ok(())
    }).chunk(1)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![definitions(tier), orders(tier), texts(), many(tier), near(tier), blank_names(), histories(tier), turtle()] }

pub const PROPERTY: Property = Property {
    id: "C20", level: "model_checking",
    rule: "Every definition up to the depth (kind, name and description of each entry), every way of making systems from it, every history of registering, looking up, making systems and changing them up to the depth, compared with a model of registry and systems after every step. Distinct states are distinct definitions and histories.",
    assumptions: &["get-or-create defaults do not themselves use the registry"],
    families,
};
