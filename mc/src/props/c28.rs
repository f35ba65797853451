//! C28: rules, heads, alternatives, chances and strings are values.
use crate::{bridge::*, draws, engine::*, util::*};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Chance, Production, ProductionBody, ProductionHead, ProductionStore};
use rusty_systems::system;
use std::collections::{BTreeSet, HashMap, HashSet};
use vctl::rng;

// ------------------------------------------------------------------ heads

type Ctx2 = Option<Vec<u8>>;
type H = (Ctx2, u8, Ctx2);
fn contexts(max: u32) -> Vec<Ctx2> {
    let s = Seqs::new(2, 0, max);
    let mut v: Vec<Ctx2> = vec![None];
    v.extend((0..s.size()).map(|i| Some(s.get(i).into_iter().map(|k| k as u8).collect())));
    v
}
fn all_heads(max: u32) -> Vec<H> {
    let c = contexts(max);
    c.iter().flat_map(|l| c.iter().flat_map(move |r| (0..2).map(move |t| (l.clone(), t, r.clone())))).collect()
}
fn head(a: &Alpha, h: &H) -> ProductionHead {
    let c = |c: &Ctx2| c.as_ref().map(|c| a.string(c));
    ProductionHead::build(c(&h.0), a.syms[h.1 as usize], c(&h.2)).expect("head")
}
/// None: nothing is said about contexts that are absent in one and empty in the other.
fn equal(a: &H, b: &H) -> Option<bool> {
    let part = |x: &Ctx2, y: &Ctx2| match (x, y) { (None, Some(e)) | (Some(e), None) if e.is_empty() => None, (x, y) => Some(x == y) };
    match (part(&a.0, &b.0), a.1 == b.1, part(&a.2, &b.2)) { (Some(false), ..) | (_, false, _) | (_, _, Some(false)) => Some(false), (Some(true), true, Some(true)) => Some(true), _ => None }
}
fn heads(tier: Tier) -> Family {
    let hs = all_heads(tier.pick(2, 3));
    let n = hs.len() as u64;
    Family::new("every pair of heads", n * n, move |i, ctx| {
        let al = Alpha::abc();
        let (x, y) = (&hs[(i / n) as usize], &hs[(i % n) as usize]);
        let (a, b) = (head(&al, x), head(&al, y));
        let input = || format!("heads {x:?} and {y:?}");
        for (h, w) in [(&a, x), (&b, y), (&a.clone(), x)] {
            let same = |s: Option<&ProductionString>, w: &Ctx2| match (s, w) { (None, None) => true, (Some(s), Some(w)) => al.same(s, w), _ => false };
            if *h.target() != al.syms[w.1 as usize] || !same(h.pre_context(), &w.0) || !same(h.post_context(), &w.2) { return fail(input(), "a head gives back other parts than it was made of") }
        }
        let eq = a == b;
        if (a != b) == eq || (b == a) != eq || a.clone() != a { return fail(input(), "equality contradicts itself") }
        if equal(x, y).is_some_and(|w| w != eq) { return fail(input(), format!("are equal: {eq}")) }
        if eq && hash(&a) != hash(&b) { return fail(input(), "are equal but hash differently") }
        // rules are equal when their heads are, whatever they are replaced by
        let bodies = [ProductionBody::empty(), ProductionBody::new(al.string(&[0, 1])), ProductionBody::try_with_chance(0.25, al.string(&[2])).expect("chance")];
        let p = Production::new(a.clone(), bodies[(i % 3) as usize].clone());
        let mut q = Production::new(b.clone(), bodies[(i / 3 % 3) as usize].clone());
        if i % 2 == 0 { q.add_body(bodies[0].clone()) }
        if (p == q) != eq || (q == p) != eq || p.clone() != p || (eq && hash(&p) != hash(&q)) { return fail(input(), format!("rules with these heads are equal: {}", p == q)) }
        let set: HashSet<&Production> = [&p, &q].into_iter().collect();
        if set.len() != if eq { 1 } else { 2 } { return fail(input(), "a set of rules counts them wrongly") }
        let map: HashMap<ProductionHead, u8> = [(a, 1), (b, 2)].into_iter().collect();
        if map.len() != if eq { 1 } else { 2 } { return fail(input(), "a map of heads counts them wrongly") }
        ctx.done(hash(&(x, y)), 8);
        ctx.sample(|| format!("{x:?} and {y:?}"));
        Ok(())
    })
}

// ------------------------------------------------------------------ chances

fn singles() -> Vec<f32> { (0..512u32).flat_map(|e| [0, 1, 0x7f_ffff, 0x40_0000, 0x3f_ffff, 0x12_3456, 0x4c_cccd, 0x19_999a].map(|m| f32::from_bits(e << 23 | m))).collect() }
fn chances() -> Family {
    let v = singles();
    Family::new("every chance", v.len() as u64, move |i, ctx| {
        let c = v[i as usize];
        let input = || format!("the chance {c:?}");
        let good = c > 0.0 && c <= 1.0;
        let kept = |x: &Chance| x.is_user_set() && !x.is_derived() && x.unwrap() == c && x.expect("there") == c && x.unwrap_or(0.125) == c;
        match quiet(|| Chance::new(c)) {
            Ok(x) if good => if !kept(&x) || !kept(&x.clone()) { return fail(input(), format!("became {x:?}")) },
            Ok(x) => return fail(input(), format!("became {x:?} although it is out of range")),
            Err(m) => if good { return fail(input(), format!("was refused: {m}")) },
        }
        let al = Alpha::abc();
        let s = al.string(&[0, 2, 1]);
        match calm(input, || ProductionBody::try_with_chance(c, s.clone()))? {
            Ok(b) if good => if !kept(b.chance()) || *b.string() != s || b.len() != 3 || b.is_empty() { return fail(input(), format!("made the alternative {b:?}")) },
            Ok(b) => return fail(input(), format!("made the alternative {b:?} although it is out of range")),
            Err(e) => if good { return fail(input(), format!("was refused: {e}")) },
        }
        // and of nothing at all
        let e = Chance::empty();
        let other = if c.is_nan() { 0.5 } else { c };
        if !e.is_derived() || e.is_user_set() || e.unwrap_or(other) != other { return fail("no chance", format!("is {e:?}")) }
        if quiet(|| e.unwrap()).is_ok() { return fail("no chance", "was unwrapped") }
        match quiet(|| e.expect("the caller's words")) { Err(m) if m.contains("the caller's words") => {} _ => return fail("no chance", "was expected") }
        ctx.done(hash(&c.to_bits()), 3);
        Ok(())
    })
}
fn alternatives(tier: Tier) -> Family {
    let s = Seqs::new(3, 0, tier.pick(6, 8));
    Family::new("every alternative", s.size(), move |i, ctx| {
        let al = Alpha::abc();
        let w: Vec<u8> = s.get(i).into_iter().map(|k| k as u8).collect();
        let input = || format!("the alternative {:?}", al.text(&w));
        let b = ProductionBody::new(al.string(&w));
        for b in [b.clone(), b] { if !al.same(b.string(), &w) || b.len() != w.len() || b.is_empty() != w.is_empty() || !b.chance().is_derived() { return fail(input(), format!("is {b:?}")) } }
        let e = ProductionBody::empty();
        if !e.is_empty() || e.len() != 0 || !e.string().is_empty() || !e.chance().is_derived() { return fail("the empty alternative", format!("is {e:?}")) }
        let p = Production::new(ProductionHead::build(None, al.syms[0], None).unwrap(), ProductionBody::new(al.string(&w)));
        if p.all_bodies().len() != 1 || !al.same(p.all_bodies()[0].string(), &w) { return fail(input(), "is not the rule's only one") }
        match p.body() { Ok(b) if al.same(b.string(), &w) => {} _ => return fail(input(), "is not what the rule chooses") }
        ctx.done(hash(&w), 3);
        Ok(())
    })
}

// ------------------------------------------------------------------ histories

/// Two rules and a system. Bodies are numbered; every body is another symbol.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Body(usize), Copy(usize), Merge(usize, usize), Give(usize), Text, Drop(usize), Choose(usize), Derive }
const OPS: [Op; 14] = [Op::Body(0), Op::Body(1), Op::Copy(0), Op::Copy(1), Op::Merge(0, 1), Op::Merge(1, 0), Op::Merge(0, 0), Op::Give(0), Op::Give(1), Op::Text, Op::Drop(1), Op::Choose(0), Op::Choose(1), Op::Derive];

fn ids(p: &Production) -> Vec<String> { p.all_bodies().iter().map(|b| b.string().to_string()).collect() }
fn outcomes(mut f: impl FnMut() -> Result<String, String>) -> Result<BTreeSet<String>, String> {
    (0..64).map(|k| draws::with_words(vec![rng::midpoint(k, 64)], &mut f).0).collect()
}
fn histories(tier: Tier) -> Family {
    let s = Seqs::new(OPS.len(), 1, tier.pick(4, 5));
    Family::new("every history of two rules and a system", s.size(), move |i, ctx| {
        let v: Vec<Op> = s.get(i).into_iter().map(|k| OPS[k]).collect();
        let input = |at: usize| format!("rules 0 and 1, call {at} of {v:?}");
        let target = Symbol::build("A").unwrap();
        let al = Alpha::many("b", 12);
        let fresh = |k: usize| Production::new(ProductionHead::build(None, target, None).unwrap(), ProductionBody::new(ProductionString::from(al.syms[k])));
        let sys = System::new();
        let mut have = [fresh(0), fresh(1)];
        let mut want: [Vec<String>; 2] = [vec!["b0".into()], vec!["b1".into()]];
        let mut held: Vec<String> = vec![];
        let mut next = 2;
        for (at, op) in v.iter().enumerate() {
            let input = || input(at);
            match *op {
                Op::Body(k) => { have[k].add_body(ProductionBody::new(ProductionString::from(al.syms[next]))); want[k].push(format!("b{next}")); next += 1 }
                // the other becomes a copy of this one
                Op::Copy(k) => { have[1 - k] = have[k].clone(); want[1 - k] = want[k].clone() }
                Op::Merge(k, o) => { let other = have[o].clone(); have[k].merge(other); let w = want[o].clone(); want[k].extend(w) }
                Op::Give(k) => {
                    let r = oops(sys.add_production(have[k].clone()), &input())?;
                    held.extend(want[k].iter().cloned());
                    have[k] = r;
                    want[k] = held.clone();
                }
                Op::Text => { oops(sys.add_production(format!("A -> b{next}").as_str()), &input())?; held.push(format!("b{next}")); next += 1 }
                Op::Drop(k) => { have[k] = fresh(next); want[k] = vec![format!("b{next}")]; next += 1 }
                Op::Choose(k) => {
                    let got = outcomes(|| have[k].body().map(|b| b.string().to_string()).map_err(|e| e.to_string())).or_else(|e| fail(input(), e))?;
                    if got != want[k].iter().cloned().collect() { return fail(input(), format!("rule {k} chooses among {got:?} instead of {:?}", want[k])) }
                    let one = outcomes(|| system::derive_once(ProductionString::from(target), &have[k..k + 1]).map(|s| s.to_string()).map_err(|e| e.to_string())).or_else(|e| fail(input(), e))?;
                    if one != got { return fail(input(), format!("rule {k} derives {one:?} instead of {got:?}")) }
                }
                Op::Derive => {
                    let got = outcomes(|| sys.derive_once(ProductionString::from(target)).map(|s| s.to_string()).map_err(|e| e.to_string())).or_else(|e| fail(input(), e))?;
                    let w: BTreeSet<String> = if held.is_empty() { ["A".to_string()].into() } else { held.iter().cloned().collect() };
                    if got != w { return fail(input(), format!("the system derives {got:?} instead of {w:?}")) }
                }
            }
            for k in 0..2 { if ids(&have[k]) != want[k] { return fail(input(), format!("rule {k} has the alternatives {:?} instead of {:?}", ids(&have[k]), want[k])) } }
            if sys.production_len() != !held.is_empty() as usize { return fail(input(), format!("the system has {} rules", sys.production_len())) }
        }
        ctx.done(hash(&v), v.len() as u64);
        ctx.sample(|| format!("{v:?}"));
        Ok(())
    })
}
/// Rules with many alternatives, copied and merged at every length.
fn many(tier: Tier) -> Family {
    let l = lengths(tier.pick(150, 600), tier.pick(5000, 70_000));
    Family::new("rules with any number of alternatives", l.len() as u64, move |i, ctx| {
        let n = l[i as usize].max(1);
        let al = Alpha::many("b", 7);
        let rule = |n: usize, off: usize| {
            let mut p = Production::new(ProductionHead::build(None, al.syms[0], None).unwrap(), ProductionBody::new(ProductionString::from(al.syms[off % 7])));
            for k in 1..n { p.add_body(ProductionBody::new(ProductionString::from(al.syms[(k * k + off) % 7]))) }
            p
        };
        let names = |n: usize, off: usize| (0..n).map(|k| al.names[(if k == 0 { 0 } else { k * k } + off) % 7].clone()).collect::<Vec<_>>();
        let input = || format!("a rule with {n} alternatives");
        let (mut p, q) = (rule(n, 0), rule(n / 2 + 1, 3));
        let old = p.clone();
        p.merge(q.clone());
        if ids(&old) != names(n, 0) || ids(&q) != names(n / 2 + 1, 3) { return fail(input(), "changes its copies by merging") }
        if ids(&p) != [names(n, 0), names(n / 2 + 1, 3)].concat() { return fail(input(), "merges into other alternatives") }
        let sys = System::new();
        oops(sys.add_production(old), &input())?;
        let got = oops(sys.add_production(q), &input())?;
        if ids(&got) != ids(&p) { return fail(input(), "merges differently in a system") }
        if n > 70_000 { ctx.beat() }
        ctx.done(n as u64, 4);
        Ok(())
    })
}
/// Copies of strings go their own ways.
fn strings(tier: Tier) -> Family {
    // two strings; push a or b to either, copy either over the other, read either to its end
    let s = Seqs::new(8, 1, tier.pick(5, 6));
    Family::new("every history of two strings", s.size(), move |i, ctx| {
        let v = s.get(i);
        let al = Alpha::abc();
        let mut have = [ProductionString::new(), al.string(&[2])];
        let mut want: [Vec<u8>; 2] = [vec![], vec![2]];
        for (at, op) in v.iter().enumerate() {
            let k = op % 2;
            match op / 2 {
                0 => { have[k].push_symbol(al.syms[0]); want[k].push(0) }
                1 => { have[k].push_symbol(al.syms[1]); want[k].push(1) }
                2 => { have[1 - k] = have[k].clone(); want[1 - k] = want[k].clone() }
                _ => {
                    let copy: Vec<Symbol> = have[k].clone().into_iter().collect();
                    have[k] = ProductionString::from(copy);
                    let b = ProductionBody::new(have[k].clone());
                    have[1 - k].push_symbol(al.syms[2]); want[1 - k].push(2);
                    if !al.same(b.string(), &want[k]) { return fail(format!("{v:?}"), "an alternative shares its string") }
                }
            }
            for k in 0..2 { if !al.same(&have[k], &want[k]) || have[k].to_string() != al.text(&want[k]) { return fail(format!("strings 0 and 1, call {at} of {v:?}"), format!("string {k} is {:?} instead of {:?}", have[k].to_string(), al.text(&want[k]))) } }
            if (have[0] == have[1]) != (want[0] == want[1]) { return fail(format!("strings 0 and 1, call {at} of {v:?}"), "compare wrongly") }
            if want[0] == want[1] && hash(&have[0]) != hash(&have[1]) { return fail(format!("strings 0 and 1, call {at} of {v:?}"), "are equal but hash differently") }
        }
        ctx.done(hash(&v), v.len() as u64);
        Ok(())
    })
}

/// Lists of alternatives with every mix of strings and chances, built in every way.
fn mixes(tier: Tier) -> Family {
    const CHANCES: [Option<f32>; 5] = [None, Some(0.25), Some(0.5), Some(1.0), Some(1e-6)];
    let s = Seqs::new(CHANCES.len() * 3, 1, tier.pick(4, 5));
    Family::new("lists of alternatives of every mix", s.size(), move |i, ctx| {
        let v: Vec<(Option<f32>, Vec<u8>)> = s.get(i).into_iter().map(|x| (CHANCES[x / 3], [vec![], vec![1], vec![1, 2]][x % 3].clone())).collect();
        let al = Alpha::abc();
        let input = |how: &str| format!("the alternatives {v:?}, {how}");
        let body = |b: &(Option<f32>, Vec<u8>)| match b.0 { None => ProductionBody::new(al.string(&b.1)), Some(c) => ProductionBody::try_with_chance(c, al.string(&b.1)).expect("chance") };
        let head = || ProductionHead::build(None, al.syms[0], None).unwrap();
        let part = |r: &[(Option<f32>, Vec<u8>)]| { let mut p = Production::new(head(), body(&r[0])); for b in &r[1..] { p.add_body(body(b)) } p };
        let is = |p: &Production, w: &[(Option<f32>, Vec<u8>)]| p.all_bodies().len() == w.len() && p.all_bodies().iter().zip(w).all(|(b, w)| al.same(b.string(), &w.1) && b.len() == w.1.len() && b.chance().is_user_set() == w.0.is_some() && b.chance().is_derived() == w.0.is_none() && w.0.is_none_or(|c| b.chance().unwrap() == c));
        let whole = part(&v);
        if !is(&whole, &v) || !is(&whole.clone(), &v) { return fail(input("added one by one"), format!("are {:?}", whole.all_bodies())) }
        for cut in 1..v.len() {
            // the later ones in one piece, and the later ones merged beforehand
            let (mut p, q) = (part(&v[..cut]), part(&v[cut..]));
            let old = p.clone();
            p.merge(q.clone());
            if !is(&p, &v) || !is(&old, &v[..cut]) || !is(&q, &v[cut..]) { return fail(input(&format!("merged with those from {cut} on")), format!("are {:?}", p.all_bodies())) }
            let mut later = part(&v[cut..cut + 1]);
            for b in &v[cut + 1..] { later.merge(Production::new(head(), body(b))) }
            let mut p = old;
            p.merge(later);
            if !is(&p, &v) { return fail(input(&format!("those from {cut} on merged one by one, then with the others")), format!("are {:?}", p.all_bodies())) }
        }
        let sys = System::new();
        for (k, b) in v.iter().enumerate() {
            let got = oops(sys.add_production(Production::new(head(), body(b))), &input("given to a system one by one"))?;
            if !is(&got, &v[..=k]) { return fail(input("given to a system one by one"), format!("are {:?}", got.all_bodies())) }
        }
        ctx.done(hash(&i), v.len() as u64 * 3);
        Ok(())
    })
}

/// Strings and heads over a window of symbols one after the other: those that differ by one place
/// in one symbol and by anything in the next are different, whatever the codes add up to.
fn neighbours(tier: Tier) -> Family {
    let w = tier.pick(600usize, 1200);
    Family::new("strings and heads against those with neighbouring codes", w as u64, move |i, ctx| {
        let i = i as usize;
        let al = Alpha::many("w", w);
        let st = |v: &[usize]| ProductionString::from(v.iter().map(|k| al.syms[*k]).collect::<Vec<_>>());
        // the string in the middle against every pair around it, bare and far inside longer ones
        let mid = w / 2;
        let base = st(&[mid, mid]);
        let pad = st(&vec![0; 14]);
        let long = |v: &[usize], at: usize| { let mut l: Vec<Symbol> = pad.symbols()[..at].to_vec(); l.extend(v.iter().map(|k| al.syms[*k])); l.extend(&pad.symbols()[at..]); ProductionString::from(l) };
        let hd = |l: Option<ProductionString>, t: usize, r: Option<ProductionString>| ProductionHead::build(l, al.syms[t], r).unwrap();
        let shapes = |x: usize, y: usize| [
            hd(Some(st(&[x, y])), 0, None), hd(None, 0, Some(st(&[x, y]))), hd(Some(st(&[x])), y, None), hd(None, x, Some(st(&[y]))), hd(Some(st(&[x])), 0, Some(st(&[y]))), hd(Some(st(&[1, x])), y, Some(st(&[1]))),
        ];
        let (longs, heads) = ([0, 7, 14].map(|at| long(&[mid, mid], at)), shapes(mid, mid));
        for j in 0..w {
            let same = (i, j) == (mid, mid);
            let input = || format!("{} {} and {} {}", al.names[i], al.names[j], al.names[mid], al.names[mid]);
            let s = st(&[i, j]);
            if (s == base) != same || (base != s) == same { return fail(input(), format!("the strings are equal: {}", !same)) }
            for (k, at) in [0, 7, 14].into_iter().enumerate() { if (long(&[i, j], at) == longs[k]) != same { return fail(format!("{}, each inside {} symbols at {at}", input(), pad.len()), format!("the strings are equal: {}", !same)) } }
            for (h, b) in shapes(i, j).iter().zip(&heads) {
                if (h == b) != same { return fail(format!("the heads {h:?} and {b:?}"), format!("are equal: {}", !same)) }
                let body = ProductionBody::empty();
                if (Production::new(h.clone(), body.clone()) == Production::new(b.clone(), body)) != same { return fail(format!("the rules with heads {h:?} and {b:?}"), format!("are equal: {}", !same)) }
            }
        }
        ctx.done(hash(&i), w as u64 * 16);
        Ok(())
    })
}
/// All in one set: every string of up to three symbols of a window, every head of one symbol each.
fn sets(tier: Tier) -> Family {
    let w = tier.pick(40usize, 64);
    Family::new("sets of all short strings and heads", 2, move |i, ctx| {
        let al = Alpha::many("w", w);
        let words = Seqs::new(w, 0, 3);
        let st = |k: u64| ProductionString::from(words.get(k).into_iter().map(|k| al.syms[k]).collect::<Vec<_>>());
        if i == 0 {
            let all: HashMap<ProductionString, u64> = (0..words.size()).map(|k| (st(k), k)).collect();
            if all.len() as u64 != words.size() { return fail(format!("all {} strings of up to 3 of {w} symbols", words.size()), format!("a map of them has {} entries", all.len())) }
            for k in 0..words.size() { if all.get(&st(k)) != Some(&k) { return fail(format!("the string {}", st(k)), "is not found in a map of all") } }
        } else {
            let c = |k: usize| if k == w { None } else { Some(ProductionString::from(al.syms[k])) };
            let mut all = HashMap::new();
            for l in 0..=w { for t in 0..w { for r in 0..=w { all.insert(Production::new(ProductionHead::build(c(l), al.syms[t], c(r)).unwrap(), ProductionBody::empty()), (l, t, r)); } } ctx.beat(); }
            if all.len() != (w + 1) * w * (w + 1) { return fail(format!("all heads of {w} symbols with up to one symbol on each side"), format!("a map of rules with them has {} entries", all.len())) }
            for (p, (l, t, r)) in &all { if *p.head().target() != al.syms[*t] || p.head().pre_context() != c(*l).as_ref() || p.head().post_context() != c(*r).as_ref() { return fail(format!("the head {:?}", p.head()), "is found in place of another") } }
        }
        ctx.done(i, words.size());
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![heads(tier), neighbours(tier), sets(tier), chances(), alternatives(tier), mixes(tier), histories(tier), many(tier), strings(tier)] }

pub const PROPERTY: Property = Property {
    id: "C28", level: "model_checking",
    rule: "Every pair of heads with contexts up to the length; strings and heads against all with neighbouring codes, and all short ones in one map; every sign and exponent of a chance with eight mantissas each; every alternative up to the length; every list of alternatives of every mix of strings and chances, added and merged in every grouping; every history of adding, copying, merging and handing in two rules and of appending to and copying two strings, each step compared with a model that has no sharing; rules of every number of alternatives. Distinct states are distinct pairs, values and histories.",
    assumptions: &[],
    families,
};
