//! C22: no text makes the library panic, overflow or hang.
use crate::{engine::*, util::*};
use rusty_systems::interpretation::abop::{parser::parse, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{parse_prod_string, parse_production, parse_production_body, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::derive;

/// Derives, draws and writes, as long as the string stays small.
fn pipeline(sys: &System, axiom: ProductionString, it: &AbopTurtleInterpretation, iterations: usize) {
    let mut s = axiom;
    for _ in 0..iterations {
        match sys.derive(s.clone(), RunSettings::for_max_iterations(1)) { Ok(n) => s = n, Err(_) => break }
        if s.len() > 20_000 { break }
    }
    let _ = s.to_string();
    if let Ok(p) = it.interpret(sys, &s) { let _ = p.len(); }
    if let Ok(d) = SvgPathInterpretation::new_with(500, 300, it.clone()).interpret(sys, &s) { let _ = d.to_svg(); }
}

/// Everything a text can be given to.
fn everything(t: &str) {
    let _ = get_code(t).map(get_name);
    let _ = Symbol::build(t).map(|s| s.to_string());
    let _ = t.parse::<Symbol>();
    let _ = TokenIterator::new(t).take(t.len() + 3).map(|t| t.as_ref().len()).sum::<usize>();
    let string = parse_prod_string(t).ok();
    let _ = t.parse::<ProductionString>();
    let _ = parse_production_head(t);
    let _ = parse_production_body(t).map(|b| b.len());
    let it = AbopTurtleInterpretation::new(2, 22.5);
    let sys = AbopTurtleInterpretation::system().expect("system");
    let _ = sys.get_symbol(t);
    if let Ok(p) = parse_production(t) {
        let probe = ProductionString::from([p.head().pre_context().map(|c| c.symbols().clone()).unwrap_or_default(), vec![*p.head().target()], p.head().post_context().map(|c| c.symbols().clone()).unwrap_or_default()].concat());
        let _ = p.body().map(|b| b.len());
        for i in 0..probe.len() + 2 { let _ = p.matches(&probe, i); }
        let _ = derive(probe.clone(), &[p.clone(), p.clone()], RunSettings::for_max_iterations(2));
        let _ = sys.add_production(t);
        let _ = sys.add_production(t);
        pipeline(&sys, probe, &it, 2);
    }
    if let Some(s) = string { pipeline(&sys, s, &it, 2) }
    for file in [t.to_string(), format!("initial: {t}\nX -> A"), format!("initial: X\n{t}"), format!("initial: X A\nX -> {t}\nn = 3")] {
        if let Ok((i, s, a)) = parse(&file) { let n = i.n().min(3); pipeline(&s, a, &i, n) }
    }
}

fn check(t: &str) -> Case { quiet(|| everything(t)).or_else(|m| fail(show(t), format!("panicked: {m}"))) }

fn over(name: &str, parts: &'static [&'static str], max: u32) -> Family {
    let s = Seqs::new(parts.len(), 0, max);
    Family::new(name, s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| parts[k]).collect();
        check(&t)?;
        ctx.done(hash(&t), 20);
        ctx.sample(|| show(&t));
        Ok(())
    })
}

const SIGNS: &[&str] = &["A", "-", ">", "<", " ", ";", "0", "."];
const SHARP: &[&str] = &["X", "=", "n", "#", ":", "\n", "-", ">", "1", " "];
const WIDE: &[&str] = &["é", "\u{a0}", "\u{3000}", "🌿", "-", ">", "A", "\u{301}", "\u{200b}", "<"];
const WORDS: &[&str] = &["A", "X ", "-> ", "<", " >", "0.5 ", "1", "nan ", "inf", "Forward ", "[ ", "] ", "+", "\n", "#", "n = ", "delta = ", "initial:", "é", "\r", "\t", "\0", "\u{85}", "\u{feff}"];
const ENDS: &[&str] = &["\r", "\n", "\r\n", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "n=1", "initial:X", "X->X", "#"];

fn scalars() -> Family {
    const AROUND: [(&str, &str); 8] = [("", ""), ("a", ""), ("", "a"), (" ", " "), ("A -> ", ""), ("", "->A"), ("-", "-"), ("A <", " > ")];
    Family::new("every Unicode character, in several places", 0x110000, move |i, ctx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        // the whole pipeline for the first planes and a sample of places beyond them
        if i < 0x3000 { for (a, b) in AROUND { check(&format!("{a}{c}{b}"))?; } }
        else {
            let t = format!("{c} A->{c}");
            quiet(|| { let _ = parse_prod_string(&format!("a{c}-{c}>{c}")); let _ = parse_production(&t); let _ = parse_production(&format!("{c}->{c} {c}")); let _ = parse(&format!("n = {c}")); let _ = parse(&format!("initial:{c}\n{c}->{c}\n")); }).or_else(|m| fail(show(&t), format!("panicked: {m}")))?;
        }
        ctx.done(i + 1, 8);
        Ok(())
    })
}

const NUMBERS: [&str; 44] = ["0", "-0", "0.0", "1", "1.0", "1.0000001", "0.99999999999", "-1", "nan", "NaN", "-nan", "inf", "-inf", "infinity", "+1", "+", "-", ".", ".5", "5.", "1e-45", "1e-46", "1e-400", "1e400", "-1e400", "3.4028236e38", "3.5e38", "1e39", "0x1", "1_0", "1,0", "½", "٣", "1e", "1e+", "e1", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "00000000000000000000000000000001", "1e99999999999999999999", "0.1f", "１", "1 2"];
fn numbers() -> Family {
    Family::new("every kind of number in every place for one, twice", 44 * 44, |i, ctx| {
        let (a, b) = (NUMBERS[i as usize / 44], NUMBERS[i as usize % 44]);
        for t in [format!("A -> {a} B"), format!("A -> {a} {b} A"), format!("{a} -> {b}"), format!("A -> {a}"), format!("{a} < {b} > {a} -> {b} {a}")] { check(&t)? }
        // alternatives with both chances, and a plant with both as settings
        let t = format!("initial: A A A Forward\nA -> {a} A B\nA -> {b} Forward A\nA -> B");
        let u = format!("initial: Forward + Forward [ + Forward ] - X\nX -> X + Forward\ndelta = {a}\nn = {b}");
        let w = format!("initial: Forward + Forward\nX -> X\nn = {a}\nd = {b}");
        for t in [t, u, w] {
            quiet(|| if let Ok((i, s, x)) = parse(&t) { let n = i.n().min(4); pipeline(&s, x, &i, n) }).or_else(|m| fail(show(&t), format!("panicked: {m}")))?;
        }
        ctx.done(i + 1, 8);
        Ok(())
    })
}

/// A character of several bytes at every byte offset, in texts that are refused and accepted.
fn offsets(tier: Tier) -> Family {
    const WIDE: [&str; 5] = ["é", "€", "🌿", "\u{a0}", "\u{3000}"];
    const AROUND: [(&str, &str, &str); 14] = [("", "q", ""), ("", "q", "é €é and more"), ("", "q", " = 1"), ("n = ", "q", ""), ("delta = 1", "0", "q"), ("A ", "q", " -> C"), ("", "q", " -> ; <"), ("A -> ", "q", " B"), ("", "q ", ""), ("", "q ", " -> x"), ("initial: -> ", "q", ""), ("", "-", ""), ("", " ", "x"), ("# ", "q", "\nA -> 2 B")];
    let n = tier.pick(280, 4200) as u64;
    Family::new("a wide character at every byte offset", n * 14, move |i, ctx| {
        let (k, (a, q, z)) = ((i / 14) as usize, AROUND[(i % 14) as usize]);
        for c in WIDE { check(&format!("{a}{}{c}{z}", q.repeat(k)))? }
        ctx.done(i + 1, 20 * WIDE.len() as u64);
        Ok(())
    })
}

/// Long texts: deep nesting, long names, many tokens, many lines; also on a small stack.
fn long(tier: Tier) -> Family {
    const PIECES: [(&str, &str); 18] = [("", "a"), ("", "a "), ("", "-"), ("", "- "), ("", "->"), ("", "<"), ("", " < a"), ("", "\u{a0}"), ("", "é"), ("", ";"), ("A -> ", "a "), ("A -> ", "a"), ("", "\n"), ("", "#"), ("initial: X\nX->X\n", "#\n"), ("initial: X\n", "X -> X\n"), ("a < ", "a "), ("", "a > ")];
    let lens: Vec<usize> = lengths(64, tier.pick(1 << 15, 1 << 18)).into_iter().filter(|n| *n < 64 || n.is_power_of_two() || n % 10 == 0).collect();
    Family::new("long texts", lens.len() as u64 * 18, move |i, ctx| {
        let (n, (a, b)) = (lens[i as usize / 18], PIECES[i as usize % 18]);
        // many additions of one rule to one system are quadratic by nature
        if b.contains("X -> X") && n > 5000 { return Ok(()) }
        let t = format!("{a}{}", b.repeat(n));
        let input = || format!("{a:?} and {b:?} {n} times");
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || quiet(|| everything(&t))).expect("thread").join().expect("join"));
        r.or_else(|m| fail(input(), format!("panicked: {m}")))?;
        ctx.done(i + 1, 20);
        Ok(())
    }).patience(120).chunk(2)
}

fn deep(tier: Tier) -> Family {
    let lens: Vec<usize> = lengths(20, tier.pick(1 << 15, 1 << 17)).into_iter().filter(|n| *n < 20 || n.is_power_of_two()).collect();
    Family::new("drawings with deep branches, long lines and many turns", lens.len() as u64 * 8, move |i, ctx| {
        let n = lens[i as usize / 8];
        let t = match i % 8 {
            0 => "[ ".repeat(n), 1 => "] ".repeat(n), 2 => format!("{}{}", "[ Forward ".repeat(n), "] ".repeat(n)), 3 => "Forward ".repeat(n), 4 => "+ Forward ".repeat(n), 5 => "Move ".repeat(n), 6 => "[ ] ".repeat(n), _ => "Forward Move - ".repeat(n),
        };
        let input = || format!("drawing kind {} of size {n}", i % 8);
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || quiet(|| {
            let sys = AbopTurtleInterpretation::system().expect("system");
            let s = parse_prod_string(&t).expect("string");
            for delta in [0.0f32, 22.5, 1e30, -1e-30, f32::NAN, f32::INFINITY] { pipeline(&sys, s.clone(), &AbopTurtleInterpretation::new(1, delta), 0) }
        })).expect("thread").join().expect("join"));
        r.or_else(|m| fail(input(), format!("panicked: {m}")))?;
        ctx.done(i + 1, 6);
        Ok(())
    }).patience(120).chunk(2)
}

/// Derivations of grammars of every small shape, on one text as everything.
fn growth(tier: Tier) -> Family {
    const BODIES: [&str; 9] = ["", "A", "B", "A B", "B A", "[ A", "A ]", "A + B", "0.5 B"];
    const HEADS: [&str; 6] = ["A", "B", "A < B", "A > B", "B B < A", "[ < A > ]"];
    let rules = BODIES.len() * HEADS.len();
    let s = Seqs::new(rules, 1, 2);
    Family::new("grammars, derived, drawn and written", s.size(), move |i, ctx| {
        let v = s.get(i);
        let text: Vec<String> = v.iter().map(|k| format!("{} -> {}", HEADS[k / BODIES.len()], BODIES[k % BODIES.len()])).collect();
        let input = || text.join("; ");
        quiet(|| {
            let sys = AbopTurtleInterpretation::system().expect("system");
            for r in &text { let _ = sys.add_production(r.as_str()); }
            for a in ["A", "A B", "B B A [ A ]", ""] { for n in 0..tier.pick(5, 8) { pipeline(&sys, parse_prod_string(a).expect("axiom"), &AbopTurtleInterpretation::new(n, 90.0), n) } }
        }).or_else(|m| fail(input(), format!("panicked: {m}")))?;
        ctx.done(hash(&v), 20);
        Ok(())
    })
}

/// Very many iterations where the string stays small or dies out.
fn patient(tier: Tier) -> Family {
    const GRAMMARS: [(&str, &str); 7] = [("", "A B"), ("A -> A", "A"), ("A -> B; B -> A", "A B"), ("A -> B; B ->", "A A A"), ("A ->", "A"), ("X < A -> B; B > C -> A", "X A C A"), ("A -> 0.5 A; A -> B; B -> A", "A")];
    let mut counts: Vec<usize> = (0..=tier.pick(130, 600)).collect();
    counts.extend([200, 256, 257, 1000, 1024, 4095, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 100_000, 300_000]);
    // these only where nothing is left, or nothing to do
    let endless = [1usize << 20, 1 << 24];
    Family::new("very many iterations of strings that stay small", (counts.len() + endless.len()) as u64 * 7, move |i, ctx| {
        let (rules, axiom) = GRAMMARS[i as usize % 7];
        let k = i as usize / 7;
        let n = if k < counts.len() { counts[k] } else { if !matches!(i % 7, 0 | 4) { return Ok(()) } endless[k - counts.len()] };
        let input = || format!("rules {rules:?}, axiom {axiom:?}, {n} iterations");
        quiet(|| {
            let sys = AbopTurtleInterpretation::system().expect("system");
            let mut all = vec![];
            for r in rules.split(';').filter(|r| !r.trim().is_empty()) { all.push(parse_production(r).expect("rule")); let _ = sys.add_production(r); }
            let start = parse_prod_string(axiom).expect("axiom");
            let a = sys.derive(start.clone(), RunSettings::for_max_iterations(n));
            let b = derive(start, &all, n.into());
            let _ = (a.map(|s| s.to_string()), b.map(|s| s.to_string()));
            let file = format!("initial: {axiom}\n{}\nQ -> Q\nn = {n}", rules.replace("; ", "\n"));
            if let Ok((i, s, a)) = parse(&file) { if let Ok(r) = s.derive(a, i.n().into()) { let _ = i.interpret(&s, &r).map(|p| p.len()); } }
        }).or_else(|m| fail(input(), format!("panicked: {m}")))?;
        ctx.done(i + 1, 3);
        Ok(())
    }).patience(120).chunk(7)
}

pub fn families(tier: Tier) -> Vec<Family> {
    vec![over("every text over arrows and marks", SIGNS, tier.pick(6, 7)), over("every text over a plant file's characters", SHARP, tier.pick(5, 6)), over("every text over wide characters", WIDE, tier.pick(5, 6)),
         over("every text over words", WORDS, tier.pick(3, 4)), over("every text over line ends", ENDS, tier.pick(4, 6)), numbers(), scalars(), growth(tier), offsets(tier), patient(tier), long(tier), deep(tier)]
}

pub const PROPERTY: Property = Property {
    id: "C22", level: "model_checking",
    rule: "Every text over each of several small alphabets up to the length, every Unicode character in several places, every pair of number spellings, wide characters at every byte offset, texts and drawings of growing size on a 1 MiB stack; each text goes through every parser and what is accepted is derived, drawn and written. Nothing may panic (overflow checks are on), overflow the stack or exceed the patience. Distinct states are distinct texts.",
    assumptions: &["derivations are run for a few iterations and stopped at 20000 symbols", "a case that takes over a minute counts as not terminating"],
    families,
};
