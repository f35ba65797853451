//! C10: production strings and their tokens.
use crate::{bridge::*, engine::*, model, util::*};
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{parse_prod_string, TokenKind};
use rusty_systems::prelude::*;

pub fn check(text: &str, ctx: &mut Ctx) -> Case {
    let input = || show(text);
    // the tokenizer
    let limit = text.len() + 2;
    let toks: Vec<(String, usize, usize, bool)> = calm(input, || TokenIterator::new(text).take(limit).map(|t| {
        let k = match t.kind { TokenKind::Arrow => "->", TokenKind::ContextLeft => "<", TokenKind::ContextRight => ">", TokenKind::Terminator => ";", TokenKind::Symbol => "" };
        let kind_ok = match t.text { "->" | "<" | ">" | ";" => k == t.text, "" => k == ";", _ => k.is_empty() };
        (t.text.to_string(), t.start, t.end, kind_ok && t.as_ref() == t.text)
    }).collect())?;
    let want = model::tokens(text);
    for (k, t) in toks.iter().enumerate() {
        if t.0.is_empty() { if k + 1 == toks.len() { continue } return fail(input(), format!("token {k} is empty and not the last")) }
        let Some((a, b)) = want.get(k) else { return fail(input(), format!("there are {} tokens instead of {}: {:?}", toks.len(), want.len(), toks)) };
        if t.0 != text[*a..*b] { return fail(input(), format!("token {k} is {:?} instead of {:?}", t.0, &text[*a..*b])) }
        if text.get(t.1..t.2) != Some(t.0.as_str()) { return fail(input(), format!("token {k}, {:?}, is reported at {}..{}, where the text has {:?}", t.0, t.1, t.2, text.get(t.1..t.2))) }
        if (t.1, t.2) != (*a, *b) { return fail(input(), format!("token {k}, {:?}, is reported at {}..{} instead of {a}..{b}", t.0, t.1, t.2)) }
        if !t.3 { return fail(input(), format!("token {k}, {:?}, has a wrong kind", t.0)) }
    }
    let full = toks.iter().filter(|t| !t.0.is_empty()).count();
    if full != want.len() { return fail(input(), format!("there are {full} tokens instead of {}", want.len())) }
    // the string
    let want = model::prod_string(text);
    for way in 0..2 {
        let got = calm(input, || if way == 0 { parse_prod_string(text) } else { text.parse::<ProductionString>() })?;
        match (&want, got) {
            (Err(()), Err(_)) => {}
            (Err(()), Ok(s)) => return fail(input(), format!("gave {} although the text has a ->, < or > before any ;", show(&s.to_string()))),
            (Ok(_), Err(e)) => return fail(input(), format!("was rejected: {e}")),
            (Ok(w), Ok(g)) => {
                if g.len() != w.len() { return fail(input(), format!("gave {} symbols instead of {}: {}", g.len(), w.len(), show(&g.to_string()))) }
                for (k, (g, w)) in g.symbols().iter().zip(w).enumerate() {
                    if g.name().as_deref() != Some(w.trim()) { return fail(input(), format!("symbol {k} is {g} instead of {w:?}")) }
                    match Symbol::build(w) { Ok(s) if s == *g => {} o => return fail(input(), format!("symbol {k} is not the symbol {w:?}: {o:?}")) }
                }
            }
        }
    }
    ctx.state(hash(&want));
    ctx.trans(3);
    ctx.validated(2);
    Ok(())
}

const CHARS: [char; 14] = ['a', 'B', ' ', '\t', '-', '>', '<', ';', '+', '(', 'é', '\u{a0}', '\n', ')'];

fn texts(tier: Tier) -> Family {
    let s = Seqs::new(CHARS.len(), 0, tier.pick(5, 6));
    Family::new("every text over 14 characters", s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| CHARS[k]).collect();
        ctx.sample(|| show(&t));
        check(&t, ctx)
    })
}
fn longer(tier: Tier) -> Family {
    const C: [char; 5] = ['a', ' ', '-', '>', '\u{3000}'];
    let s = Seqs::new(C.len(), 0, tier.pick(8, 10));
    Family::new("every longer text over 5 characters", s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| C[k]).collect();
        check(&t, ctx)
    })
}
fn scalars() -> Family {
    Family::new("every Unicode character in several places", 0x110000, |i, ctx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        // interning is cheaper when most names repeat
        for t in [format!("A{c} B"), format!("{c}-A"), format!("A {c} {c}B")] {
            let w = model::prod_string(&t);
            check(&t, ctx)?;
            let _ = w;
        }
        Ok(())
    })
}
/// Long tokens, long runs of white space and punctuation, many tokens.
fn long(tier: Tier) -> Family {
    let lens = lengths(tier.pick(140, 300), tier.pick(1 << 16, 1 << 20));
    let n = lens.len() as u64 * 7;
    Family::new("long texts", n, move |i, ctx| {
        let (l, kind) = (lens[i as usize / 7], i % 7);
        let t = match kind {
            0 => format!("A {} B", "x".repeat(l)),
            1 => format!("{}A{}B{}", " ".repeat(l), "\u{a0}".repeat(l), "\t\n".repeat(l)),
            2 => format!("A{}B", "+".repeat(l)),
            3 => "A B+".repeat(l),
            4 => format!("A {} B {}", "-".repeat(l), "(".repeat(l)),
            5 => format!("{};{}", "é ".repeat(l), "-> < >".repeat(l)),
            _ => format!("{} -> B", "A \u{3000}-".repeat(l)),
        };
        check(&t, ctx)
    }).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![texts(tier), longer(tier), scalars(), long(tier)] }

pub const PROPERTY: Property = Property {
    id: "C10", level: "model_checking",
    rule: "Every text over the alphabets up to the length, every Unicode character in several places, and long texts, tokenized and parsed and compared with a reference tokenizer. Distinct states are distinct symbol sequences.",
    assumptions: &["white space is what Unicode calls White_Space", "whether an empty end marker follows the last token is left open"],
    families,
};
