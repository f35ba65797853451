//! C06: where a rule matches.
use crate::{bridge::*, engine::*, model::{self, Rule}, util::*};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::system::find_matching;

fn ask(a: &Alpha, head: &ProductionHead, r: &Rule, s: &[u8], i: usize) -> Case {
    let input = || format!("rule {} on {} at index {i}", a.rule_text(r), show(&a.text(s)));
    let ps = a.string(s);
    let want = model::matches(&r.left, &r.target, &r.right, s, i);
    let p = Production::new(head.clone(), ProductionBody::empty());
    let (m, pm, pre, post) = calm(input, || (head.matches(&ps, i), p.matches(&ps, i), head.pre_matches(&ps, i), head.post_matches(&ps, i)))?;
    if m != want { return fail(input(), format!("matches says {m}")) }
    if pm != want { return fail(input(), format!("Production::matches says {pm}")) }
    let found = calm(input, || find_matching(std::slice::from_ref(&p), &ps, i).is_some())?;
    if found != want { return fail(input(), format!("find_matching says {found}")) }
    if i < s.len() {
        let l = model::matches(&r.left, &s[i], &[], s, i);
        let g = model::matches(&[], &s[i], &r.right, s, i);
        if pre != l { return fail(input(), format!("pre_matches says {pre}")) }
        if post != g { return fail(input(), format!("post_matches says {post}")) }
    }
    Ok(())
}

fn ctxs(syms: usize, max: u32) -> Vec<Option<Vec<u8>>> {
    let s = Seqs::new(syms, 0, max);
    std::iter::once(None).chain((0..s.size()).map(|i| Some(s.get(i).into_iter().map(|c| c as u8).collect()))).collect()
}

fn small(name: &str, syms: usize, cl: u32, sl: u32) -> Family {
    let c = ctxs(syms, cl);
    let strs = Seqs::new(syms, 0, sl);
    let n = (c.len() * c.len() * syms) as u64;
    Family::new(name, n, move |i, ctx| {
        let d = digits(i, &[c.len() as u64, c.len() as u64, syms as u64]);
        let a = Alpha::abc();
        let (l, g) = (&c[d[0]], &c[d[1]]);
        let r = Rule::new(l.as_deref().unwrap_or(&[]), d[2] as u8, g.as_deref().unwrap_or(&[]), &[]);
        let head = ProductionHead::build(l.as_ref().map(|x| a.string(x)), a.syms[d[2]], g.as_ref().map(|x| a.string(x))).map_err(|e| Fail { input: a.rule_text(&r), what: e.to_string() })?;
        let mut seen = 0u64;
        for j in 0..strs.size() {
            let s: Vec<u8> = strs.get(j).into_iter().map(|c| c as u8).collect();
            for at in (0..=s.len() + 2).chain([100, usize::MAX]) { ask(&a, &head, &r, &s, at)?; seen += 1; }
        }
        ctx.state(hash(&(l, g, d[2])));
        ctx.trans(seen * 4);
        ctx.validated(seen);
        ctx.sample(|| format!("left {l:?} target {} right {g:?}: {seen} questions", d[2]));
        Ok(())
    })
}

/// Contexts of every length, with one wrong symbol at every place, at either end of the string.
fn long_contexts(tier: Tier) -> Family {
    let lens = lengths(tier.pick(140, 300), tier.pick(5000, 70000));
    let n = lens.len() as u64 * 2;
    Family::new("contexts of every length with one difference", n, move |i, ctx| {
        let a = Alpha::abc();
        let l = lens[i as usize / 2];
        let left_side = i % 2 == 0;
        let c: Vec<u8> = (0..l).map(|k| (k % 3 == 1 || k * k % 7 == 2) as u8).collect();
        let r = if left_side { Rule::new(&c, 2, &[], &[]) } else { Rule::new(&[], 2, &c, &[]) };
        let head = a.head(&r);
        let build = |c: &[u8], extra: usize| -> (Vec<u8>, usize) {
            let mut s = vec![];
            if left_side { s.extend(vec![1u8; extra]); s.extend_from_slice(c); s.push(2); (s.clone(), s.len() - 1) } else { s.push(2); s.extend_from_slice(c); s.extend(vec![1u8; extra]); (s, 0) }
        };
        let mut k = 0;
        for extra in [0, 1, 3] {
            let (s, at) = build(&c, extra);
            ask(&a, &head, &r, &s, at)?;
            // one short
            if l > 0 {
                let (s, at) = build(if left_side { &c[1..] } else { &c[..l - 1] }, 0);
                ask(&a, &head, &r, &s, at)?;
                let (s, at) = build(if left_side { &c[..l - 1] } else { &c[1..] }, extra);
                ask(&a, &head, &r, &s, at)?;
            }
            let places: Vec<usize> = if l <= 300 { (0..l).collect() } else { vec![0, 1, l / 2, l - 2, l - 1] };
            for p in places {
                let mut w = c.clone();
                w[p] = 3;
                let (s, at) = build(&w, extra);
                ask(&a, &head, &r, &s, at)?;
                k += 1;
            }
        }
        // both sides at once
        let both = Rule::new(&c, 2, &c, &[]);
        let h = a.head(&both);
        let mut s = c.clone(); s.push(2); s.extend_from_slice(&c);
        ask(&a, &h, &both, &s, l)?;
        if l > 0 { s.pop(); ask(&a, &h, &both, &s, l)?; s[l - 1] ^= 1; ask(&a, &h, &both, &s, l)?; }
        ctx.done(hash(&i), k * 4 + 12);
        Ok(())
    })
}

/// A target far into a long string.
fn long_strings(tier: Tier) -> Family {
    let lens = lengths(tier.pick(300, 1000), tier.pick(1 << 16, 1 << 20));
    let n = lens.len() as u64;
    Family::new("matching deep inside long strings", n, move |i, ctx| {
        let a = Alpha::abc();
        let l = lens[i as usize];
        let mut s = vec![0u8; l];
        let places: Vec<usize> = if l <= 100 { (0..l).collect() } else { [0, 1, l / 3, l / 2, l - 2, l - 1].into_iter().chain((6..20).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1])).filter(|p| *p < l).collect() };
        for r in [Rule::new(&[0], 1, &[], &[]), Rule::new(&[], 1, &[0, 0], &[]), Rule::new(&[0, 0], 1, &[0], &[]), Rule::new(&[], 1, &[], &[])] {
            let h = a.head(&r);
            for p in &places {
                s[*p] = 1;
                for at in [*p, p + 1, p.saturating_sub(1), l, l + 1] { ask(&a, &h, &r, &s, at)?; }
                s[*p] = 0;
            }
            ctx.trans(places.len() as u64 * 5);
        }
        ctx.done(hash(&l), 0);
        Ok(())
    })
}

/// Symbols whose codes differ in every small way: the contexts in the middle of a window of names
/// against every pair (and triple) of names of the window, and single symbols far apart.
fn neighbours(tier: Tier) -> Family {
    let w = tier.pick(600usize, 1200);
    let w3 = tier.pick(72usize, 110);
    const FAR: usize = 140_000;
    Family::new("contexts against all neighbouring codes", (w + w3 + 2) as u64, move |i, ctx| {
        let i = i as usize;
        let sym = |k: usize| Symbol::build(format!("w{k}")).unwrap();
        let n = if i >= w + w3 { FAR } else { w };
        let all: Vec<Symbol> = (0..n).map(sym).collect();
        let mid = n / 2;
        let t = all[mid];
        let ctx_of = |k: usize| ProductionString::from(vec![t; k]);
        let test = |c: &[Symbol], left: bool, h: &ProductionHead| -> Case {
            let mut v = c.to_vec();
            if left { v.push(t) } else { v.insert(0, t) }
            let want = c.iter().all(|x| x.code() == t.code());
            let at = if left { c.len() } else { 0 };
            let s = ProductionString::from(v);
            let m = calm(|| format!("{s}"), || h.matches(&s, at))?;
            // and in a long context, at either end of it
            if c.len() == 2 && (i % 16 == 4 || i.abs_diff(w / 2) < 8) && n == w {
                for pad in [14usize, 62, 100] { for first in [true, false] {
                    let p = vec![t; pad];
                    let mut v: Vec<Symbol> = if first { [c, &p].concat() } else { [&p, c].concat() };
                    if left { v.push(t) } else { v.insert(0, t) }
                    let h = if left { ProductionHead::build(Some(ctx_of(pad + 2)), t, None).unwrap() } else { ProductionHead::build(None, t, Some(ctx_of(pad + 2))).unwrap() };
                    let at = if left { pad + 2 } else { 0 };
                    if h.matches(&ProductionString::from(v), at) != want { return fail(format!("target {t} in the context {} of the same on the {}, of which two at the {} are {} {}", pad + 2, if left { "left" } else { "right" }, if first { "start" } else { "end" }, c[0], c[1]), format!("matches says {}", !want)) }
                } }
            }
            if m != want { return fail(format!("target {t} in the context {} of the same on the {}, asked for {s}", c.len(), if left { "left" } else { "right" }), format!("matches says {m}")) }
            Ok(())
        };
        let head = |left: bool, k: usize| if left { ProductionHead::build(Some(ctx_of(k)), t, None).unwrap() } else { ProductionHead::build(None, t, Some(ctx_of(k))).unwrap() };
        for left in [true, false] {
            if i < w {
                let h = head(left, 2);
                for d in &all { test(&[all[i], *d], left, &h)? }
                ctx.trans(w as u64);
            } else if i < w + w3 {
                let h = head(left, 3);
                let win = &all[mid - w3 / 2..mid + w3 / 2];
                for d in win { for e in win { test(&[win[i - w], *d, *e], left, &h)? } }
                ctx.trans((w3 * w3) as u64);
            } else if i == w + w3 {
                let h = head(left, 1);
                for d in &all { test(&[*d], left, &h)? }
                ctx.trans(FAR as u64);
            } else {
                // the target itself, and a code that differs in one bit
                let h = head(left, 2);
                for b in 0..32 { for d in [vec![Symbol::from_code(t.code() ^ 1 << b), t], vec![t, Symbol::from_code(t.code() ^ 1 << b)]] { test(&d, left, &h)? } }
                let h = ProductionHead::build(None, t, None).unwrap();
                for d in &all { let s = ProductionString::from(vec![*d]); if h.matches(&s, 0) != (*d == t) { return fail(format!("target {t} on {d}"), "matches is wrong") } }
                ctx.trans(FAR as u64);
            }
        }
        ctx.state(hash(&i));
        ctx.validated(1);
        Ok(())
    }).chunk(64)
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![
        small("contexts up to 2 over 2 symbols, strings up to 6, every index", 2, 2, 6),
        small("contexts up to 1 over 3 symbols, strings up to 4, every index", 3, 1, 4),
        long_contexts(tier), long_strings(tier), neighbours(tier),
    ];
    if tier == Tier::Thorough {
        v.push(small("contexts up to 3 over 2 symbols, strings up to 8, every index", 2, 3, 8));
        v.push(small("contexts up to 2 over 3 symbols, strings up to 5, every index", 3, 2, 5));
    }
    v
}

pub const PROPERTY: Property = Property {
    id: "C06", level: "model_checking",
    rule: "Every rule head and string of the small scope, asked at every index (also past the end), sweeps of context and string length, and contexts of one repeated symbol against all pairs of 600 (and triples of 72) neighbouring symbols; answers are compared with the definition. Distinct states are distinct heads (or sizes).",
    assumptions: &["what the separate left and right tests say past the end of the string is only required not to panic"],
    families,
};
