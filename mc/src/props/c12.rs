//! C12: printing and reading back production strings, and their one sequence.
use crate::{bridge::*, engine::*, model, util::*};
use rusty_systems::parser::parse_prod_string;
use rusty_systems::prelude::*;
use rusty_systems::symbols::get_name;
use rusty_systems::symbols::iterator::SymbolIterable;
use std::collections::HashSet;

/// Every way of looking at a string must show these symbols.
fn agree(s: &ProductionString, want: &[Symbol], input: &dyn Fn() -> String) -> Case {
    let bad = |what: &str| fail(input(), format!("{what} does not show the {} symbols of the string", want.len()));
    if s.len() != want.len() { return bad("len") }
    if s.is_empty() != want.is_empty() { return bad("is_empty") }
    if s.symbols().as_slice() != want { return bad("symbols") }
    if s.iter().copied().collect::<Vec<_>>() != want { return bad("iter") }
    if s.iter().len() != want.len() { return bad("iter().len") }
    if (&*s).into_iter().collect::<Vec<_>>() != want { return bad("iterating by reference") }
    if s.clone().into_iter().collect::<Vec<_>>() != want { return bad("iterating by value") }
    if s.clone().into_iter().rev().collect::<Vec<_>>() != want.iter().rev().copied().collect::<Vec<_>>() { return bad("iterating backwards") }
    if s.all_symbols_iter().collect::<Vec<_>>() != want { return bad("all_symbols_iter") }
    if s.all_symbols::<Vec<_>>() != want { return bad("all_symbols") }
    if s.all_symbols::<HashSet<_>>() != want.iter().copied().collect::<HashSet<_>>() { return bad("all_symbols as a set") }
    for (i, w) in want.iter().enumerate() { if s[i] != *w { return bad("indexing") } }
    if want.len() < 200 {
        for i in [want.len(), want.len() + 1, usize::MAX] { if quiet(|| s[i]).is_ok() { return fail(input(), format!("index {i} gives a symbol")) } }
    }
    Ok(())
}

/// Printed, and read back if all names are single tokens.
fn printed(s: &ProductionString, names: &[String], input: &dyn Fn() -> String) -> Case {
    let text = s.to_string();
    if text != names.join(" ") { return fail(input(), format!("prints as {} instead of {}", show(&text), show(&names.join(" ")))) }
    // with a precision, a width or a flag it may be cut or filled as a whole, but its symbols and what is between them stay
    if names.len() < 40 && s.len() > 0 {
        for (how, t) in [("{:1}", format!("{s:1}")), ("{:#}", format!("{s:#}")), ("{:300}", format!("{s:300}")), ("{:>300}", format!("{s:>300}")), ("{:^300}", format!("{s:^300}")), ("{:.300}", format!("{s:.300}")), ("{:+}", format!("{s:+}"))] {
            if text.chars().count() > 300 || text.trim() != text { continue }
            if t.trim_matches(' ') != text { return fail(input(), format!("printed with {how} is {} instead of {}", show(&t), show(&text))) }
        }
        for p in 0..4usize {
            let t = format!("{s:.p$}");
            let cut: String = text.chars().take(p).collect();
            if t != text && t != cut { return fail(input(), format!("printed with precision {p} is {}, which is neither {} nor its start", show(&t), show(&text))) }
        }
    }
    if format!("{s}") != text { return fail(input(), "prints differently the second time") }
    let single = names.iter().all(|n| { let t = model::tokens(n); t.len() == 1 && t[0] == (0, n.len()) && !matches!(n.as_str(), ";" | "->" | "<" | ">") });
    if single {
        for way in 0..2 {
            match calm(input, || if way == 0 { parse_prod_string(&text) } else { text.parse() })? {
                Ok(b) if b == *s && b.len() == s.len() => {}
                Ok(b) => return fail(input(), format!("{} reads back as {}", show(&text), show(&b.to_string()))),
                Err(e) => return fail(input(), format!("{} does not read back: {e}", show(&text))),
            }
        }
    }
    Ok(())
}

const NAMES: [&str; 10] = ["A", "a", "é", "+", "->-", "[", "((", "F", "0.5", "x\u{200b}y"];

fn strings(tier: Tier) -> Family {
    let s = Seqs::new(NAMES.len(), 0, tier.pick(4, 5));
    Family::new("every string over 10 names", s.size(), move |i, ctx| {
        let v: Vec<usize> = s.get(i);
        let names: Vec<String> = v.iter().map(|k| NAMES[*k].to_string()).collect();
        let syms: Vec<Symbol> = names.iter().map(|n| Symbol::build(n).unwrap()).collect();
        let input = || format!("{names:?}");
        let a = ProductionString::from(syms.clone());
        let mut b = if i % 2 == 0 { ProductionString::new() } else { ProductionString::default() };
        for (k, x) in syms.iter().enumerate() {
            b.push_symbol(*x);
            if k < 3 { agree(&b, &syms[..=k], &input)? }
        }
        agree(&a, &syms, &input)?;
        agree(&b, &syms, &input)?;
        if a != b || hash(&a) != hash(&b) { return fail(input(), "the same symbols built in two ways differ") }
        if syms.len() == 1 { let c = ProductionString::from(syms[0]); agree(&c, &syms, &input)?; if c != a { return fail(input(), "from one symbol differs") } }
        if syms.is_empty() { for e in [ProductionString::empty(), ProductionString::new(), ProductionString::default()] { agree(&e, &[], &input)?; if e != a { return fail(input(), "empty strings differ") } } }
        printed(&a, &names, &input)?;
        ctx.done(hash(&names), 20);
        ctx.sample(|| show(&a.to_string()));
        Ok(())
    })
}

fn equality(tier: Tier) -> Family {
    let s = Seqs::new(3, 0, tier.pick(5, 6));
    Family::new("equality of every pair of strings over 3 symbols", s.size(), move |i, ctx| {
        let a = Alpha::abc();
        let mk = |k: u64| a.string(&s.get(k).into_iter().map(|c| c as u8).collect::<Vec<_>>());
        let x = mk(i);
        for j in 0..s.size() {
            let y = mk(j);
            if (x == y) != (i == j) || (i == j && hash(&x) != hash(&y)) { return fail(format!("{x:?} and {y:?}"), format!("compare {}", x == y)) }
        }
        ctx.state(hash(&s.get(i)));
        ctx.trans(s.size());
        ctx.validated(s.size());
        Ok(())
    })
}

fn scalars() -> Family {
    Family::new("every Unicode character as a name", 0x110000, |i, ctx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        let n = c.to_string();
        if n.trim().is_empty() { return Ok(()) }
        let names = vec!["A".to_string(), n.clone(), n];
        let syms: Vec<Symbol> = names.iter().map(|n| Symbol::build(n).unwrap()).collect();
        let p = ProductionString::from(syms.clone());
        printed(&p, &names, &|| format!("{names:?}"))?;
        ctx.done(i, 3);
        Ok(())
    })
}

/// Symbols nobody named.
fn unnamed() -> Family {
    Family::new("symbols without a name", 4000, |i, ctx| {
        let code = match i { 0..=99 => i as u32, 100..=1999 => 1_000_000 + i as u32 * 7919, _ => u32::MAX - (i as u32 - 2000) * 104_729 };
        let input = || format!("code {code}");
        if get_name(code).is_some() { return Ok(()) }
        let s = Symbol::from_code(code);
        let t = s.to_string();
        if t.matches(char::is_numeric).collect::<String>() != code.to_string() { return fail(input(), format!("prints as {t:?}")) }
        let a = Symbol::build("A").unwrap();
        let p = ProductionString::from(vec![a, s, a]);
        let w = format!("A {t} A");
        if p.to_string() != w { return fail(input(), format!("in a string prints as {:?} instead of {w:?}", p.to_string())) }
        agree(&p, &[a, s, a], &input)?;
        if s.name().is_some() || s.code() != code { return fail(input(), "has a name or another code") }
        ctx.done(hash(&code), 3);
        Ok(())
    })
}

/// Strings of symbols built from codes, named or not.
fn codes(tier: Tier) -> Family {
    const CODES: [u32; 7] = [0, 1, 99, u32::MAX, u32::MAX - 1, 1 << 31, 0];
    let s = Seqs::new(CODES.len(), 0, tier.pick(4, 6));
    Family::new("every string over codes without a name", s.size(), move |i, ctx| {
        let a = Symbol::build("A").unwrap();
        // the last letter is a named symbol
        let syms: Vec<Symbol> = s.get(i).into_iter().map(|k| if k == CODES.len() - 1 { a } else { Symbol::from_code(CODES[k]) }).collect();
        let input = || format!("codes {:?}", syms.iter().map(|s| s.code()).collect::<Vec<_>>());
        let p = ProductionString::from(syms.clone());
        let mut q = ProductionString::new();
        for x in &syms { q.push_symbol(*x) }
        agree(&p, &syms, &input)?;
        agree(&q, &syms, &input)?;
        if p != q || hash(&p) != hash(&q) { return fail(input(), "the same symbols built in two ways differ") }
        let each: Vec<String> = syms.iter().map(|s| s.to_string()).collect();
        if p.to_string() != each.join(" ") { return fail(input(), format!("prints as {}", show(&p.to_string()))) }
        for k in 0..syms.len() {
            let mut v = syms.clone();
            v.remove(k);
            if ProductionString::from(v.clone()) == p { return fail(input(), format!("equal to the string without symbol {k}")) }
            for c in CODES {
                let x = Symbol::from_code(c);
                v.insert(k, x);
                if (ProductionString::from(v.clone()) == p) != (x == syms[k]) || (x == syms[k]) != (c == syms[k].code()) { return fail(input(), format!("equality with code {c} at {k}")) }
                v.remove(k);
            }
        }
        ctx.done(hash(&i), 20);
        Ok(())
    })
}

/// Strings of symbols whose codes differ in every small way: one in the middle of a window of
/// names against every pair and triple of the window.
fn neighbours(tier: Tier) -> Family {
    let w = tier.pick(600usize, 1200);
    let w3 = 72usize;
    Family::new("equality against all neighbouring codes", (w + w3) as u64, move |i, ctx| {
        let i = i as usize;
        let all: Vec<Symbol> = (0..w).map(|k| Symbol::build(format!("w{k}")).unwrap()).collect();
        let t = all[w / 2];
        // alone, and at the start, at the end and in the middle of long strings
        let pads = [(0usize, 0usize), (64, 0), (0, 64), (70, 70), (0, 300), (300, 0), (1000, 24)];
        let one = |v: Vec<Symbol>| -> Case {
            let want = v.iter().all(|x| x.code() == t.code());
            for (a, z) in &pads[..if v.len() == 2 && (i % 8 == 4 || i.abs_diff(w / 2) < 40) { 7 } else { 1 }] {
                let y: Vec<Symbol> = std::iter::repeat_n(t, *a).chain(v.iter().copied()).chain(std::iter::repeat_n(t, *z)).collect();
                let (x, y) = (ProductionString::from(vec![t; y.len()]), ProductionString::from(y));
                if (x == y) != want || (y == x) != want || (x != y) == want { return fail(format!("{a} symbols, {}, {z} symbols, against as many times {t}", v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")), format!("compare {}", x == y)) }
            }
            Ok(())
        };
        if i < w {
            for d in &all { one(vec![all[i], *d])? }
            one(vec![all[i]])?;
            ctx.trans(w as u64);
        } else {
            let win = &all[w / 2 - w3 / 2..w / 2 + w3 / 2];
            for d in win { for e in win { one(vec![win[i - w], *d, *e])? } }
            ctx.trans((w3 * w3) as u64);
        }
        ctx.state(hash(&(1, i)));
        ctx.validated(1);
        Ok(())
    }).chunk(64)
}

fn long(tier: Tier) -> Family {
    let lens = lengths(tier.pick(300, 1000), tier.pick(1 << 17, 1 << 20));
    let n = lens.len() as u64 * 3;
    Family::new("strings of every length", n, move |i, ctx| {
        let (l, kind) = (lens[i as usize / 3], i % 3);
        let names: Vec<String> = match kind {
            0 => (0..l).map(|k| NAMES[k % 7].to_string()).collect(),
            1 => (0..l).map(|k| format!("sym{}", k % 1009)).collect(),
            _ => if l == 0 { vec![] } else { vec!["x".repeat(l), "B".into(), "y".repeat(l)] },
        };
        let syms: Vec<Symbol> = names.iter().map(|n| Symbol::build(n).unwrap()).collect();
        let input = || format!("length {l}, kind {kind}");
        let a = ProductionString::from(syms.clone());
        let mut b = ProductionString::new();
        for s in &syms { b.push_symbol(*s) }
        agree(&a, &syms, &input)?;
        agree(&b, &syms, &input)?;
        if a != b { return fail(input(), "built in two ways differ") }
        if l > 0 {
            for p in [0, syms.len() / 2, syms.len() - 1] {
                let mut v = syms.clone();
                v[p] = Symbol::build("other").unwrap();
                if ProductionString::from(v.clone()) == a { return fail(input(), format!("equal to a string that differs at {p}")) }
                v.remove(p);
                if ProductionString::from(v) == a { return fail(input(), "equal to a shorter string") }
            }
        }
        printed(&a, &names, &input)?;
        ctx.done(hash(&(kind, l)), l as u64 * 8);
        Ok(())
    })
}

/// So many names that whatever is kept about some of them is used again for others.
fn crowd(tier: Tier) -> Family {
    let n = tier.pick(140_000usize, 1_100_000);
    Family::new("every name of a crowd, printed and read back", 4, move |i, ctx| {
        let r = in_child(300, || {
            let names: Vec<String> = (0..n).map(|k| format!("{}{k}", ["k", "é", "", "name"][k % 4])).collect();
            let all: Vec<Symbol> = names.iter().map(|s| Symbol::build(s).expect("symbol")).collect();
            let order: Vec<usize> = match i { 0 | 3 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => (0..n).map(|k| k * 7919 % n).collect() };
            for round in 0..2 {
                for k in &order {
                    let s = all[*k];
                    if s.to_string() != names[*k] || s.name().as_deref() != Some(&names[*k]) { return format!("in round {round}, the symbol of {:?} prints as {:?} and is called {:?}", names[*k], s.to_string(), s.name()).into_bytes() }
                }
            }
            if i == 3 {
                let v: Vec<Symbol> = order.iter().map(|k| all[*k]).collect();
                let p = ProductionString::from(v.clone());
                let t = p.to_string();
                if t != names.join(" ") { return b"the string of all names prints otherwise".to_vec() }
                if parse_prod_string(&t).ok() != Some(p) { return b"the string of all names does not read back".to_vec() }
            }
            vec![]
        });
        let input = || format!("{n} names, order {i}");
        match r { Ok(m) if m.is_empty() => {} Ok(m) => return fail(input(), String::from_utf8_lossy(&m)), Err(m) => return fail(input(), m) }
        ctx.done(hash(&(2, i)), n as u64);
        Ok(())
    }).patience(310).chunk(1)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![strings(tier), equality(tier), scalars(), unnamed(), codes(tier), neighbours(tier), crowd(tier), long(tier)] }

pub const PROPERTY: Property = Property {
    id: "C12", level: "model_checking",
    rule: "Every string over the names up to the length (and each Unicode character, unnamed codes and long strings) is built in each way, seen through every view, printed and read back. Distinct states are distinct strings.",
    assumptions: &["names that are not a single token are printed but not read back", "the wording around an unnamed symbol's code number is left open"],
    families,
};
