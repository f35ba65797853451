//! C11: production texts.
use crate::{bridge::*, engine::*, util::*};
use crate::props::c08::MRule;
use rusty_systems::parser::{parse_production, parse_production_body, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionHead};

/// What a text must give: this rule, an error, or anything but a panic.
#[derive(Clone, Debug, PartialEq)]
pub enum Want { Rule(MRule), Error, Any }

/// A number as it may stand before a replacement: its value, or None if this is no number.
/// Err: whether this counts as a number, or whether it is in range, is not settled.
fn number(t: &str) -> Result<Option<f64>, ()> {
    if t.to_ascii_lowercase().contains("inf") || t.to_ascii_lowercase().contains("nan") { return Err(()) }
    match t.parse::<f64>() {
        Err(_) => Ok(None),
        Ok(v) => { let f = v as f32; if (v > 0.0 && f == 0.0) || (v > 1.0 && f <= 1.0) { Err(()) } else { Ok(Some(v)) } }
    }
}

/// Judges a text given as tokens separated by white space.
pub fn judge(toks: &[&str]) -> Want {
    let Some(arrow) = toks.iter().position(|t| *t == "->") else {
        // an arrow glued to a name is an arrow, too, but what else it does is left open
        return if toks.iter().any(|t| t.contains("->")) { Want::Any } else { Want::Error };
    };
    if toks[..arrow].iter().any(|t| t.contains("->")) { return Want::Any }
    let (head, body) = (&toks[..arrow], &toks[arrow + 1..]);
    let lt = head.iter().filter(|t| **t == "<").count();
    let gt = head.iter().filter(|t| **t == ">").count();
    let l = head.iter().position(|t| *t == "<");
    let g = head.iter().position(|t| *t == ">");
    // one left context, then the target; next to nothing, the marks may be names
    let apart = head.split(|t| matches!(*t, "<" | ">")).all(|s| !s.is_empty());
    if matches!((l, g), (Some(l), Some(g)) if g < l) { return Want::Any }
    // behind its mark, the right context may hold such names as well; but there is one target only
    if gt > 1 { return Want::Any }
    if lt > 1 { return if apart { Want::Error } else { Want::Any } }
    let target = &head[l.map(|l| l + 1).unwrap_or(0)..g.unwrap_or(head.len())];
    if target.len() != 1 { return Want::Error }
    if body.iter().any(|t| matches!(*t, "<" | ">") || t.contains("->")) { return Want::Any }
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let (chance, rest) = match body.first().map(|t| number(t)) {
        None => (None, body),
        Some(Err(())) => return Want::Any,
        Some(Ok(None)) => (None, body),
        Some(Ok(Some(v))) => { if !(v > 0.0 && v <= 1.0) { return Want::Error } (Some(v as f32), &body[1..]) }
    };
    Want::Rule(MRule { left: own(&head[..l.unwrap_or(0)]), target: target[0].into(), right: own(g.map(|g| &head[g + 1..]).unwrap_or(&[])), bodies: vec![(chance, own(rest))] })
}

fn close(w: &MRule, p: &Production) -> Result<(), String> {
    // the chance is compared as a number, up to its precision
    let mut w = w.clone();
    if let (Some(c), Some(b)) = (w.bodies[0].0, p.all_bodies().first()) {
        if !b.chance().is_user_set() || b.chance().is_derived() { return Err(format!("the chance {c} was not taken")) }
        let g = b.chance().unwrap();
        if (g - c).abs() > 2e-7 * c.abs() { return Err(format!("the chance is {g} instead of {c}")) }
        w.bodies[0].0 = Some(g);
    }
    w.is(p)
}

pub fn check(text: &str, want: &Want) -> Case {
    let input = || show(text);
    let all: [Result<Production, Error>; 4] = [calm(input, || parse_production(text))?, calm(input, || Production::try_from(text))?,
        calm(input, || Production::try_from(text.to_string()))?, calm(input, || text.parse::<Production>())?];
    for (k, got) in all.into_iter().enumerate() {
        match (want, got) {
            (Want::Any, _) | (Want::Error, Err(_)) => {}
            (Want::Error, Ok(p)) => return fail(input(), format!("was accepted with target {}, although it is not a production (way {k})", p.head().target())),
            (Want::Rule(r), Err(e)) => return fail(input(), format!("was rejected ({e}) instead of giving {} (way {k})", r.text())),
            (Want::Rule(r), Ok(p)) => close(r, &p).or_else(|e| fail(input(), format!("{e} (way {k})")))?,
        }
    }
    // the two halves on their own
    if let (Want::Rule(r), Some((h, b))) = (want, text.split_once("->")) {
        let head = oops(calm(input, || parse_production_head(h))?, &input())?;
        let body = oops(calm(input, || parse_production_body(b))?, &input())?;
        close(r, &Production::new(head, body)).or_else(|e| fail(input(), format!("{e} (parsed in halves)")))?;
    }
    Ok(())
}

fn same_head(a: &ProductionHead, b: &ProductionHead) -> bool { a == b }

const GAPS: [[&str; 4]; 6] = [
    // between tokens, around the arrow, at the start, at the end
    [" ", " ", "", ""], ["\t", "", "  ", "\n"], ["  ", "\t \t", "\t", " "], [" \n ", "\r\n", "\u{a0}", "\u{3000}"], ["\x0c", "   ", "\n\n", "\r\n"], [" ", "", "", ""],
];
const LEFTS: [&[&str]; 5] = [&[], &["A"], &["B", "A"], &["A", "A", "long-name"], &["0.5", "+"]];
const TARGETS: [&str; 8] = ["A", "é", "+", "[", "0.5", "a_b", "F(1,2)", "日本"];
const RIGHTS: [&[&str]; 4] = [&[], &["]"], &["A", "B"], &["X", "X", "A"]];
const CHANCES: [&str; 12] = ["", "0.5", "1", "1.0", ".25", "0", "0.0", "-0.5", "1.5", "2", "0.000001", "1e-3"];
const BODIES: [&[&str]; 8] = [&[], &["A"], &["A", "B", "A"], &["0.5"], &["[", "+", "A", "]"], &["-"], &["B", "0.25", "1"], &["1.2.3", "é"]];

fn structured() -> Family {
    let radices = [LEFTS.len() as u64, TARGETS.len() as u64, RIGHTS.len() as u64, CHANCES.len() as u64, BODIES.len() as u64, GAPS.len() as u64];
    Family::new("every structured production", radices.iter().product(), move |i, ctx| {
        let d = digits(i, &radices);
        let g = GAPS[d[5]];
        let mut head: Vec<&str> = vec![];
        if !LEFTS[d[0]].is_empty() { head.extend(LEFTS[d[0]]); head.push("<") }
        head.push(TARGETS[d[1]]);
        if !RIGHTS[d[2]].is_empty() { head.push(">"); head.extend(RIGHTS[d[2]]) }
        let mut body: Vec<&str> = vec![];
        if !CHANCES[d[3]].is_empty() { body.push(CHANCES[d[3]]) }
        body.extend(BODIES[d[4]]);
        let text = format!("{}{}{}->{}{}{}", g[2], head.join(g[0]), g[1], g[1], body.join(g[0]), g[3]);
        let mut toks = head.clone();
        toks.push("->");
        toks.extend(&body);
        let want = judge(&toks);
        // a name that ends in - or starts with > would join the arrow
        if head.last().unwrap().ends_with('-') && g[1].is_empty() { return Ok(()) }
        check(&text, &want)?;
        ctx.done(hash(&format!("{want:?}")), 6);
        ctx.sample(|| show(&text));
        Ok(())
    })
}

/// Every pair of contexts, equal ones and ones that repeat the target or the replacement included.
fn contexts(tier: Tier) -> Family {
    const N: [&str; 3] = ["A", "B", "C"];
    let c = Seqs::new(3, 0, tier.pick(3, 4));
    let b = Seqs::new(2, 0, 2);
    Family::new("every pair of contexts", c.size() * c.size() * b.size() * 2, move |i, ctx| {
        let d = digits(i, &[c.size(), c.size(), b.size(), 2]);
        let names = |s: &Seqs, k: usize| -> Vec<&str> { s.get(k as u64).into_iter().map(|k| N[k]).collect() };
        let (l, r, body) = (names(&c, d[0]), names(&c, d[1]), names(&b, d[2]));
        let mut toks: Vec<&str> = l.clone();
        if !l.is_empty() { toks.push("<") }
        toks.push(N[d[3]]);
        if !r.is_empty() { toks.push(">") }
        toks.extend(&r);
        toks.push("->");
        toks.extend(&body);
        check(&toks.join(" "), &judge(&toks))?;
        ctx.done(hash(&toks), 6);
        Ok(())
    })
}

fn sequences(tier: Tier) -> Family {
    const T: [&str; 7] = ["A", "B", "<", ">", "->", "0.5", "3"];
    let s = Seqs::new(T.len(), 0, tier.pick(6, 7));
    Family::new("every sequence of tokens", s.size(), move |i, ctx| {
        let toks: Vec<&str> = s.get(i).into_iter().map(|k| T[k]).collect();
        let want = judge(&toks);
        check(&toks.join(" "), &want)?;
        ctx.done(hash(&format!("{want:?}")), 4);
        Ok(())
    })
}

fn numbers(tier: Tier) -> Family {
    const C: [char; 8] = ['0', '1', '5', '.', 'e', '-', '+', 'x'];
    let s = Seqs::new(C.len(), 1, tier.pick(5, 6));
    Family::new("everything that may look like a number", s.size(), move |i, ctx| {
        let n: String = s.get(i).into_iter().map(|k| C[k]).collect();
        for toks in [vec!["A", "->", &n, "B"], vec!["A", "->", &n], vec!["A", "->", "B", &n]] {
            let want = judge(&toks);
            check(&toks.join(" "), &want)?;
            ctx.done(hash(&format!("{want:?}")), 4);
        }
        Ok(())
    })
}

fn decimals() -> Family {
    Family::new("every chance in thousandths", 2101, |i, ctx| {
        let k = i as i64 - 500;
        for n in [format!("{}", k as f64 / 1000.0), format!("{:.5}", k as f64 / 1000.0), format!("{}e-3", k), format!("+{:e}", k as f64 / 1000.0)] {
            if n.starts_with("+-") { continue }
            let toks = ["A", "->", &n, "B", "C"];
            check(&toks.join(" "), &judge(&toks))?;
            ctx.done(hash(&n), 4);
        }
        Ok(())
    })
}

fn characters(tier: Tier) -> Family {
    const C: [char; 9] = ['A', ' ', '-', '>', '<', '0', '.', '\u{a0}', 'é'];
    let s = Seqs::new(C.len(), 0, tier.pick(6, 7));
    Family::new("every text over 9 characters", s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| C[k]).collect();
        // clean token texts are judged, others only must not panic
        let toks: Vec<&str> = t.split_ascii_whitespace().collect();
        let clean = !t.contains('\u{a0}') && toks.iter().all(|k| matches!(*k, "<" | ">" | "->") || !k.contains(['<', '>']));
        check(&t, &if clean { judge(&toks) } else if !t.contains("->") { Want::Error } else { Want::Any })?;
        ctx.done(hash(&t), 4);
        Ok(())
    })
}

fn scalars() -> Family {
    Family::new("every Unicode character in a name and as a separator", 0x110000, |i, ctx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        let t = format!("x{c}y -> A{c} {c}");
        let clean = !c.is_whitespace() && !matches!(c, '<' | '>' | '-');
        let (x, y, z) = (format!("x{c}y"), format!("A{c}"), c.to_string());
        check(&t, &if clean { judge(&[&x, "->", &y, &z]) } else { Want::Any })?;
        ctx.done(i, 4);
        Ok(())
    })
}

/// Chances of every magnitude, and as close to nothing and to one as they can be.
fn limits() -> Family {
    // around 1, around 0, and four numbers for each exponent
    let mut v: Vec<f32> = (0..400u32).map(|k| f32::from_bits(1f32.to_bits() - 200 + k)).collect();
    v.extend((0..200u32).map(f32::from_bits));
    for e in 0..=140u32 { for m in [0, 1, 0x2a_aaaa, 0x7f_ffff] { v.push(f32::from_bits(e << 23 | m)) } }
    let n = v.len() as u64;
    Family::new("chances of every magnitude", n, move |i, ctx| {
        let x = v[i as usize];
        for t in [format!("{x}"), format!("{x:e}"), format!("{x:E}"), format!("{x:.7}"), format!("{x:.9}"), format!("{:.17}", x as f64), format!("0{x}"), format!("-{x}"), format!("{x:.45}")] {
            for toks in [&["A", "->", &t, "B"][..], &["A", "<", "B", ">", "C", "->", &t]] { check(&toks.join(" "), &judge(toks))? }
        }
        ctx.done(hash(&x.to_bits()), 72);
        Ok(())
    })
}

/// Numbers with any character before, behind or in them.
fn near_numbers() -> Family {
    const N: [&str; 7] = ["0.5", "5", "50", "1", ".5", "1e-1", "0"];
    Family::new("every Unicode character at a number", 0x110000, |i, ctx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        if c.is_whitespace() || matches!(c, '<' | '>') { return Ok(()) }
        for n in &N[..if i < 0x3000 { 7 } else { 3 }] {
            let (head, tail) = n.split_at(1);
            for t in [format!("{n}{c}"), format!("{c}{n}"), format!("{head}{c}{tail}"), format!("{n}{c}{c}")] {
                for toks in [&["A", "->", &t, "B"][..], &["A", "->", &t], &["A", "->", "B", &t], &[&t, "<", "A", "->", &t, &t]][..if i < 0x3000 { 4 } else { 1 }].iter() { check(&toks.join(" "), &judge(toks))? }
                let two = ["A", "->", n, &c.to_string(), "B"];
                check(&two.join(" "), &judge(&two))?;
            }
        }
        ctx.done(i, 80);
        Ok(())
    })
}

/// A symbol of one or two equal marks in a head or replacement of any length, at any place.
fn marks(tier: Tier) -> Family {
    let mut marks: Vec<char> = (33..127u8).map(|b| b as char).filter(|c| !c.is_ascii_alphanumeric() && !matches!(c, '<' | '>')).collect();
    marks.extend(['A', 'n', '0', '7', 'é', '∂', '°', '→', '…', '\u{feff}', '\u{200b}', '\u{ad}', '\0', '\u{7f}', '\u{1b}', '“', '️', '🌿']);
    let lens: Vec<usize> = [0usize, 1, 2, 5, 20, 70, 100, 200, 350, 500, 1000, 1400, 5000, 12_000].into_iter().chain(tier.pick(vec![], vec![50, 300, 3000, 30_000])).collect();
    let nl = lens.len() as u64;
    Family::new("marks as symbols in long productions", marks.len() as u64 * 2 * nl * 4, move |i, ctx| {
        let d = digits(i, &[marks.len() as u64, 2, nl, 4]);
        let mark = marks[d[0]].to_string().repeat(d[1] + 1);
        let l = lens[d[2]];
        if l > 1500 && !marks[d[0]].is_ascii_punctuation() { return Ok(()) }
        let pad: Vec<String> = (0..l).map(|k| format!("s{}", k % 13)).collect();
        let pad: Vec<&str> = pad.iter().map(|s| s.as_str()).collect();
        for place in [0, l / 2, l] {
            let mut with = pad.clone();
            with.insert(place, &mark);
            let mut toks: Vec<&str> = vec![];
            match d[3] {
                0 => { toks.extend(&with); toks.extend(["<", "T", "->", "B"]) }
                1 => { toks.extend(["T", ">"]); toks.extend(&with); toks.extend(["->", &mark]) }
                2 => { toks.extend(["T", "->"]); toks.extend(&with) }
                _ => { toks.extend(&pad); if l > 0 { toks.push("<") } toks.push(&mark); toks.push(">"); toks.extend(&with); toks.push("->"); toks.extend(&with) }
            }
            check(&toks.join(" "), &judge(&toks))?;
            ctx.done(hash(&(i, place)), 6);
        }
        Ok(())
    })
}

fn long(tier: Tier) -> Family {
    let lens = lengths(tier.pick(140, 300), tier.pick(1 << 14, 1 << 17));
    let n = lens.len() as u64 * 6;
    Family::new("long productions", n, move |i, ctx| {
        let (l, kind) = (lens[i as usize / 6], i % 6);
        let names: Vec<String> = (0..l).map(|k| format!("s{}", k % 101)).collect();
        let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let name = "n".repeat(l + 1);
        let mut toks: Vec<&str> = vec![];
        let gap = if kind == 4 { " ".repeat(l + 1) } else { " ".into() };
        match kind {
            0 => { toks.push("A"); toks.push("->"); toks.push("0.5"); toks.extend(&refs) }
            1 => { toks.extend(&refs); toks.push("<"); toks.push("A"); toks.push("->"); toks.push("B") }
            2 => { toks.push("A"); toks.push(">"); toks.extend(&refs); toks.push("->") }
            3 => { toks.push(&name); toks.push("->"); toks.push(&name) }
            5 => { toks.extend(&refs); toks.push("<"); toks.push("A"); toks.push(">"); toks.extend(&refs); toks.push("->"); toks.extend(&refs) }
            _ => { toks.extend(["B", "<", "A", ">", "C", "->", "0.5", "D", "E"]) }
        }
        let text = format!("{gap}{}{gap}", toks.join(&gap));
        check(&text, &judge(&toks))?;
        // the same head twice is the same head
        let h = text.split_once("->").unwrap().0;
        if let (Ok(a), Ok(b)) = (parse_production_head(h), parse_production_head(h)) { if !same_head(&a, &b) { return fail(show(h), "two parses of one head differ") } }
        ctx.done(hash(&(kind, l)), 8);
        Ok(())
    }).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![structured(), contexts(tier), sequences(tier), numbers(tier), decimals(), limits(), characters(tier), scalars(), near_numbers(), marks(tier), long(tier)] }

pub const PROPERTY: Property = Property {
    id: "C11", level: "model_checking",
    rule: "Every structured production over the pools with every spacing, every token sequence and character sequence up to the length, every near-number, and long texts; each is parsed in all ways and compared with the rule a reference reading gives. Distinct states are distinct readings (or texts).",
    assumptions: &["tokens are separated by ASCII white space; other white space inside, stray or repeated < and >, a second arrow, inf and nan, and numbers that round to 0 or to 1 are only required not to panic", "an empty context is the same as none"],
    families,
};
