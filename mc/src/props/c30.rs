//! C30: tokens, their iterator, and the listed symbols of rules.
use crate::{bridge::*, engine::*, util::*};
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{Token, TokenKind};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::iterator::SymbolIterable;
use std::collections::{BTreeMap, HashSet, LinkedList, VecDeque};

// ------------------------------------------------------------------ single tokens

fn kind(t: &str) -> TokenKind {
    match t { "->" => TokenKind::Arrow, "<" => TokenKind::ContextLeft, ">" => TokenKind::ContextRight, ";" | "" => TokenKind::Terminator, _ => TokenKind::Symbol }
}
fn token(t: &str, start: usize, end: usize) -> Case {
    let input = || format!("the token {} at {start}..{end}", show(t));
    let x = calm(input, || Token::new(t, start, end))?;
    let want = kind(t);
    for x in [x, x.clone(), { let y = x; y }] {
        if x.text != t || (x.start, x.end) != (start, end) { return fail(input(), format!("became {:?} at {}..{}", x.text, x.start, x.end)) }
        if x.kind != want || TokenKind::from(t) != want { return fail(input(), format!("is of the kind {:?} instead of {want:?}", x.kind)) }
        if x.is_terminal() != (want == TokenKind::Terminator) { return fail(input(), "is an end or not, against its kind") }
        let k = x.kind.to_string();
        if match want { TokenKind::Arrow => k != "->", TokenKind::ContextLeft => k != "<", TokenKind::ContextRight => k != ">", TokenKind::Terminator => k != ";", _ => k.trim().is_empty() || kind(&k) != want } { return fail(input(), format!("is of a kind that prints as {k:?}")) }
        if x.as_ref() != t { return fail(input(), "has another text as a reference") }
        let p = if t.is_empty() { "EOS" } else { t };
        if x.to_string() != p { return fail(input(), format!("prints as {:?}", x.to_string())) }
    }
    match (calm(input, || Symbol::try_from(x))?, want == TokenKind::Symbol && !t.trim().is_empty()) {
        (Ok(s), true) => if s.name().as_deref() != Some(t.trim()) || Symbol::build(t).ok() != Some(s) { return fail(input(), format!("became the symbol {s}")) },
        (Err(_), false) => {}
        (r, _) => return fail(input(), format!("as a symbol is {r:?}")),
    }
    Ok(())
}
const PIECES: [&str; 12] = ["-", ">", "<", ";", "a", " ", "é", "->", "+", "EOS", "\n", "0.5"];
fn tokens(tier: Tier) -> Family {
    let s = Seqs::new(PIECES.len(), 0, tier.pick(4, 5));
    Family::new("every token text", s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| PIECES[k]).collect();
        for (a, b) in [(0, t.len()), (7, 7 + t.len()), (usize::MAX, 0)] { token(&t, a, b)? }
        ctx.done(hash(&t), 9);
        Ok(())
    })
}
fn characters() -> Family {
    Family::new("every character as a token, alone and behind another", 0x110000 / 64, |i, ctx| {
        for c in (i * 64..i * 64 + 64).filter_map(|c| char::from_u32(c as u32)) {
            token(&c.to_string(), 0, c.len_utf8())?;
            token(&format!(";{c}"), 3, 4 + c.len_utf8())?;
        }
        ctx.done(hash(&i), 128);
        Ok(())
    })
}
fn pairs() -> Family {
    let s = Seqs::new(PIECES.len(), 0, 1);
    let places = [(0usize, 0usize), (0, 1), (1, 0), (1, 1), (1, 2), (usize::MAX, 1)];
    let n = s.size() * places.len() as u64;
    Family::new("equality of tokens, every pair", n * n, move |i, ctx| {
        let make = |k: u64| { let t: String = s.get(k / places.len() as u64).into_iter().map(|k| PIECES[k]).collect(); (t, places[(k % places.len() as u64) as usize]) };
        let (x, y) = (make(i / n), make(i % n));
        let (a, b) = (Token::new(&x.0, x.1.0, x.1.1), Token::new(&y.0, y.1.0, y.1.1));
        let input = || format!("tokens {x:?} and {y:?}");
        if (a == b) != (x == y) || (a != b) == (x == y) { return fail(input(), format!("are equal: {}", a == b)) }
        if a == b && (hash(&a) != hash(&b) || HashSet::from([a, b]).len() != 1) { return fail(input(), "are equal but hash differently") }
        // the kind is a part of a token
        let mut c = a;
        c.kind = TokenKind::Arrow;
        if (c == a) != (a.kind == TokenKind::Arrow) { return fail(input(), "equality leaves the kind out") }
        if c.to_string() != a.to_string() || c.is_terminal() || Symbol::try_from(c).is_ok() { return fail(input(), "as an arrow is something else") }
        ctx.done(hash(&(x, y)), 2);
        Ok(())
    })
}

// ------------------------------------------------------------------ the iterator

type T = (String, usize, usize, TokenKind);
fn seen(t: Token) -> T { (t.text.to_string(), t.start, t.end, t.kind) }
/// What stepping gives, and whether the end is the end.
fn walk(text: &str, input: &dyn Fn() -> String) -> Result<Vec<T>, Fail> {
    let mut it = TokenIterator::new(text);
    let mut v = vec![];
    while let Some(t) = calm(input, || it.next())? {
        if it.text != text { return Err(Fail { input: input(), what: "the iterator's text changed".into() }) }
        v.push(seen(t));
        if v.len() > text.len() + 1 { return Err(Fail { input: input(), what: "there is no end".into() }) }
    }
    for _ in 0..3 { if let Some(t) = calm(input, || it.next())? { return Err(Fail { input: input(), what: format!("after the end came {t:?}") }) } }
    Ok(v)
}
fn copies(text: &str, places: &[usize], ctx: &mut Ctx) -> Case {
    let input = || show(text);
    let all = walk(text, &input)?;
    let n = all.len();
    let collect = |it: TokenIterator| -> Vec<T> { it.take(text.len() + 2).map(seen).collect() };
    for k in places.iter().copied().filter(|k| *k <= n + 1) {
        let mut it = TokenIterator::new(text);
        for _ in 0..k { it.next(); }
        let rest = all.get(k..).unwrap_or(&[]);
        let (lo, hi) = it.size_hint();
        if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) { return fail(input(), format!("after {k} tokens {:?} are promised and {} come", (lo, hi), rest.len())) }
        // a copy, used up before and after the original moves on
        let early = it.clone();
        if collect(it.clone()) != rest { return fail(input(), format!("a copy after {k} tokens gives {:?}", collect(it.clone()))) }
        if it.clone().count() != rest.len() || it.clone().last().map(seen).as_ref() != rest.last() { return fail(input(), format!("counting or the last differs after {k} tokens")) }
        for j in [0, 1, 2, rest.len() / 2, rest.len().wrapping_sub(1), rest.len()] {
            let mut c = it.clone();
            if j <= rest.len() && (c.nth(j).map(seen).as_ref() != rest.get(j) || collect(c) != rest.get(j + 1..).unwrap_or(&[])) { return fail(input(), format!("skipping {j} after {k} tokens is not stepping")) }
        }
        let by: Vec<T> = it.by_ref().take(1).map(seen).collect();
        if by != rest[..rest.len().min(1)] || collect(it) != rest.get(1..).unwrap_or(&[]) { return fail(input(), format!("taking one after {k} tokens is not stepping")) }
        if collect(early) != rest { return fail(input(), format!("a copy after {k} tokens does not go on by itself")) }
        ctx.trans(10);
    }
    // two at a time do not disturb one another
    let (mut a, mut b) = (TokenIterator::new(text), TokenIterator::new(text));
    let mut out = (vec![], vec![]);
    for k in 0..2 * n + 4 { if k % 3 == 0 { out.0.extend(a.next().map(seen)); } else { out.1.extend(b.next().map(seen)); } }
    out.0.extend(a.take(n + 1).map(seen));
    out.1.extend(b.take(n + 1).map(seen));
    if out.0 != all || out.1 != all { return fail(input(), "two iterators disturb one another") }
    ctx.done(hash(&all.iter().map(|t| &t.0).collect::<Vec<_>>()), 2);
    Ok(())
}
const CHARS: [char; 9] = ['a', ' ', '-', '>', ';', 'é', '<', '\u{3000}', '\n'];
fn iterators(tier: Tier) -> Family {
    let s = Seqs::new(CHARS.len(), 0, tier.pick(5, 6));
    Family::new("copies of the iterator at every place of every text", s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| CHARS[k]).collect();
        ctx.sample(|| show(&t));
        copies(&t, &(0..8).collect::<Vec<_>>(), ctx)
    })
}
fn long_texts(tier: Tier) -> Family {
    let lens = lengths(tier.pick(150, 300), tier.pick(5_000, 70_000));
    Family::new("copies of the iterator in texts of every length", lens.len() as u64 * 5, move |i, ctx| {
        let l = lens[i as usize / 5];
        let t = match i % 5 { 0 => "a ".repeat(l), 1 => format!("{} b", "a".repeat(l)), 2 => "a-".repeat(l), 3 => format!("{}a;", " ".repeat(l)), _ => format!("{} ; c", "-> é ".repeat(l)) };
        let places: Vec<usize> = if l < 60 { (0..2 * l + 3).collect() } else { vec![0, 1, 63, 64, 65, l / 2, l - 1, l, l + 1, 2 * l, 2 * l + 1] };
        copies(&t, &places, ctx)
    }).patience(120)
}

/// Texts of every length with tokens known beforehand: all of them come, at their places, and the end after them.
fn known(tier: Tier) -> Family {
    let lens = lengths(tier.pick(150, 300), tier.pick(70_000, 300_000));
    Family::new("every token of texts of every length, and the end", lens.len() as u64 * 5, move |i, ctx| {
        let l = lens[i as usize / 5];
        let mut text = String::new();
        let mut want: Vec<T> = vec![];
        let mut put = |piece: &str, gap: &str| {
            want.push((piece.to_string(), text.len(), text.len() + piece.len(), kind(piece)));
            text.push_str(piece);
            text.push_str(gap);
        };
        match i % 5 {
            // many tokens, a long one, one behind much space, alternating arrows, and a last one that is an end itself
            0 => { for k in 0..l { put(["a", "bé", "x"][k % 3], " ") } put("b", "") }
            1 => { put("first", "\t"); put(&"long".repeat(l + 1), "") }
            2 => { put("first", &" ".repeat(l + 1)); put("last", "") }
            3 => { for k in 0..l { put(["a", "->", "é", "<", "b", ">"][k % 6], " ") } put("\u{1F33F}", "") }
            _ => { for k in 0..l { put(["a", "->", "é"][k % 3], "  ") } put("z", " "); put(";", "") }
        }
        // behind a token that ends with the text comes the end, which is empty
        if i % 5 != 4 { want.push((String::new(), 0, 0, TokenKind::Terminator)) }
        let input = || format!("{} tokens over {} bytes: {}", want.len(), text.len(), show(&text));
        let mut got = walk(&text, &input)?;
        // where the end is said to be is its own affair
        for t in &mut got { if t.0.is_empty() { (t.1, t.2) = (0, 0) } }
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return fail(input(), format!("{} tokens come instead of {}; number {k} is {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k)));
        }
        ctx.done(hash(&(l, i % 5)), got.len() as u64);
        Ok(())
    }).patience(120)
}

// ------------------------------------------------------------------ the symbols of rules

fn listed<I: SymbolIterable + Clone>(x: &I, want: &[Symbol], input: &dyn Fn() -> String) -> Case {
    for x in [x, &x.clone()] {
        let got: Vec<Symbol> = calm(input, || x.all_symbols_iter().collect())?;
        if got != want { return fail(input(), format!("{} symbols are listed instead of {}: {:?}", got.len(), want.len(), got.iter().take(20).map(|s| s.to_string()).collect::<Vec<_>>())) }
        let set: HashSet<Symbol> = want.iter().copied().collect();
        if x.all_symbols::<Vec<_>>() != want || x.all_symbols::<VecDeque<_>>() != want || x.all_symbols::<HashSet<_>>() != set || !x.all_symbols::<LinkedList<_>>().iter().eq(want) { return fail(input(), "the collected symbols are not the listed ones") }
        let (lo, hi) = { let it = x.all_symbols_iter(); it.size_hint() };
        if lo > want.len() || hi.is_some_and(|h| h < want.len()) { return fail(input(), "more or fewer symbols are promised than come") }
        let mut it = x.all_symbols_iter();
        if want.len() > 2 && (it.nth(1) != Some(want[1]) || it.next() != Some(want[2])) { return fail(input(), "skipping is not stepping") }
        let mut count = BTreeMap::new();
        for s in x.all_symbols_iter() { *count.entry(s.code()).or_insert(0usize) += 1 }
        if count.values().sum::<usize>() != want.len() { return fail(input(), "listing again gives another number") }
    }
    Ok(())
}
fn rule(a: &Alpha, l: &Option<Vec<u8>>, t: u8, r: &Option<Vec<u8>>, bodies: &[Vec<u8>], input: &dyn Fn() -> String) -> Case {
    let sy = |v: &[u8]| v.iter().map(|k| a.syms[*k as usize]).collect::<Vec<_>>();
    let c = |c: &Option<Vec<u8>>| c.as_ref().map(|c| a.string(c));
    let h = ProductionHead::build(c(l), a.syms[t as usize], c(r)).unwrap();
    let mut want = sy(l.as_deref().unwrap_or(&[]));
    want.push(a.syms[t as usize]);
    want.extend(sy(r.as_deref().unwrap_or(&[])));
    listed(&h, &want, &|| format!("the head of {}", input()))?;
    let mut p: Option<Production> = None;
    for (k, b) in bodies.iter().enumerate() {
        let body = if k % 2 == 0 { ProductionBody::new(a.string(b)) } else { ProductionBody::try_with_chance(0.25, a.string(b)).unwrap() };
        if bodies.len() < 10 { listed(&body, &sy(b), &|| format!("alternative {k} of {}", input()))?; listed(&a.string(b), &sy(b), &|| format!("string {k} of {}", input()))? }
        want.extend(sy(b));
        match &mut p { None => p = Some(Production::new(h.clone(), body)), Some(p) if k % 3 == 0 => p.merge(Production::new(h.clone(), body)), Some(p) => p.add_body(body) }
    }
    if let Some(p) = p { listed(&p, &want, input)? }
    Ok(())
}
fn rules(tier: Tier) -> Family {
    let cs = Seqs::new(2, 0, 2);
    let bs = Seqs::new(2, 0, tier.pick(2, 3));
    let (n, b) = (cs.size() + 1, bs.size());
    let alts = Seqs::new(b as usize, 1, 3);
    Family::new("the symbols of every rule", 2 * n * n * alts.size(), move |i, ctx| {
        let al = Alpha::many("r", 8);
        let d = digits(i, &[n, n, alts.size(), 2]);
        let t = [2, 7][d[3] as usize];
        // every place has symbols of its own, but for the last one, which they share
        let ctx_of = |k: usize, base: u8| if k == 0 { None } else { Some(cs.get(k as u64 - 1).into_iter().map(|x| if x == 0 { base } else { 7 }).collect::<Vec<u8>>()) };
        let (l, r) = (ctx_of(d[0], 0), ctx_of(d[1], 1));
        let bodies: Vec<Vec<u8>> = alts.get(d[2] as u64).into_iter().map(|k| bs.get(k as u64).into_iter().map(|x| if x == 0 { 3 } else { 7 }).collect()).collect();
        rule(&al, &l, t, &r, &bodies, &|| format!("{l:?} < {t} > {r:?} -> {bodies:?}"))?;
        ctx.done(hash(&i), 2 + bodies.len() as u64);
        ctx.sample(|| format!("{l:?} {r:?} {bodies:?}"));
        Ok(())
    })
}
fn large_rules(tier: Tier) -> Family {
    let lens = lengths(tier.pick(150, 300), tier.pick(70_000, 1 << 18));
    Family::new("the symbols of rules of every size", lens.len() as u64 * 4, move |i, ctx| {
        let al = Alpha::many("r", 8);
        let (l, k) = (lens[i as usize / 4], i % 4);
        let long: Vec<u8> = (0..l).map(|j| (j * j % 5 % 3) as u8).collect();
        let input = || format!("a rule with {l} {}", ["symbols on the left", "symbols on the right", "symbols in an alternative", "alternatives"][k as usize]);
        match k {
            0 => rule(&al, &Some(long), 4, &Some(vec![5]), &[vec![6]], &input)?,
            1 => rule(&al, &Some(vec![5]), 4, &Some(long), &[vec![6]], &input)?,
            2 => rule(&al, &None, 4, &None, &[vec![5], long, vec![6]], &input)?,
            _ => rule(&al, &Some(vec![5]), 4, &None, &(0..l).map(|j| (0..j * j % 3).map(|x| (j % 3 + x) as u8).collect()).collect::<Vec<_>>(), &input)?,
        }
        ctx.done(hash(&i), 2);
        Ok(())
    }).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![tokens(tier), characters(), pairs(), iterators(tier), long_texts(tier), known(tier), rules(tier), large_rules(tier)] }

pub const PROPERTY: Property = Property {
    id: "C30", level: "model_checking",
    rule: "Every token text over an alphabet of pieces and every character; every pair of tokens over texts and places; every text over an alphabet with the iterator copied, skipped and used up at each place; every small rule, and rules of every size, with its symbols listed in every way. Distinct states are distinct tokens, token sequences and rules.",
    assumptions: &["which characters end a token is judged by C10, here only that every way of reading agrees"],
    families,
};
