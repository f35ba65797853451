//! C05: one derivation step.
use crate::{bridge::*, engine::*, model::{self, Rule}, util::*};
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::system::{derive_once, find_matching};

/// Every rule over `n` symbols with at most one symbol of context on each side.
fn all_rules(n: u8, bodies: &[&[u8]]) -> Vec<Rule> {
    let ctx: Vec<Vec<u8>> = std::iter::once(vec![]).chain((0..n).map(|c| vec![c])).collect();
    let mut v = vec![];
    for b in bodies { for t in 0..n { for l in &ctx { for r in &ctx { v.push(Rule::new(l, t, r, b)) } } } }
    v
}

/// The step by the free function and by a system, if no two heads are equal.
pub fn check(a: &Alpha, rules: &[Rule], s: &[u8]) -> Case {
    let input = || format!("rules {}; string {}", a.rules_text(rules), show(&a.text(s)));
    let want = model::step(rules, s);
    let prods = a.rules(rules);
    expect_string(a, calm(input, || derive_once(a.string(s), &prods))?, &want, input)?;
    let distinct = rules.len() < 40 && (0..rules.len()).all(|i| (0..i).all(|j| !rules[i].same_head(&rules[j])));
    if distinct {
        let sys = System::new();
        for p in prods { oops(sys.add_production(p), &input())?; }
        expect_string(a, calm(input, || sys.derive_once(a.string(s)))?, &want, || format!("{} (through a System)", input()))?;
    }
    Ok(())
}

fn small(name: &str, rules: Vec<Rule>, k: u32, syms: usize, max: u32) -> Family {
    let lists = Seqs::new(rules.len(), 0, k);
    let strs = Seqs::new(syms, 0, max);
    Family::new(name, lists.size(), move |i, ctx| {
        let a = Alpha::abc();
        let list: Vec<Rule> = lists.get(i).into_iter().map(|x| rules[x].clone()).collect();
        let (prods, spelt) = (a.rules(&list), a.rules_spelt(&list));
        let sys = System::new();
        let distinct = (0..list.len()).all(|i| (0..i).all(|j| !list[i].same_head(&list[j])));
        if distinct { for p in &prods { oops(sys.add_production(p.clone()), "add")?; } }
        for j in 0..strs.size() {
            let s: Vec<u8> = strs.get(j).into_iter().map(|c| c as u8).collect();
            let input = || format!("rules {}; string {}", a.rules_text(&list), a.text(&s));
            let want = model::step(&list, &s);
            expect_string(&a, calm(input, || derive_once(a.string(&s), &prods))?, &want, input)?;
            if distinct { expect_string(&a, calm(input, || sys.derive_once(a.string(&s)))?, &want, || format!("{} (through a System)", input()))?; }
            expect_string(&a, calm(input, || derive_once(a.string(&s), &spelt))?, &want, || format!("{} (with empty contexts)", input()))?;
            // which rule is it that matches
            for p in 0..s.len() {
                let m = list.iter().position(|r| model::matches(&r.left, &r.target, &r.right, &s, p));
                let g = find_matching(&prods, &a.string(&s), p).map(|g| prods.iter().position(|x| std::ptr::eq(x, g)).unwrap());
                let e = find_matching(&spelt, &a.string(&s), p).map(|g| spelt.iter().position(|x| std::ptr::eq(x, g)).unwrap());
                if m != e { return fail(input(), format!("at position {p}, with empty contexts, rule {e:?} was chosen instead of {m:?}")) }
                if m != g { return fail(input(), format!("at position {p} rule {g:?} was chosen instead of {m:?}")) }
            }
            ctx.state(hash(&(&want, &list)));
        }
        ctx.trans(strs.size() * 3);
        ctx.validated(strs.size());
        ctx.sample(|| format!("rules {} on all strings up to length {max}", a.rules_text(&list)));
        Ok(())
    })
}

/// Strings of every length, with rules whose matches overlap.
fn long_strings(tier: Tier) -> Family {
    let lens = lengths(tier.pick(300, 1200), tier.pick(1 << 16, 1 << 20));
    let lists: Vec<Vec<Rule>> = vec![
        vec![],
        vec![Rule::new(&[], 0, &[], &[0, 1])],
        vec![Rule::new(&[], 0, &[], &[])],
        vec![Rule::new(&[0], 0, &[], &[1]), Rule::new(&[], 0, &[], &[2, 2])],
        vec![Rule::new(&[], 0, &[0, 0], &[1]), Rule::new(&[1], 0, &[], &[2]), Rule::new(&[], 1, &[], &[0])],
        vec![Rule::new(&[1, 0], 0, &[1], &[2]), Rule::new(&[], 1, &[], &[1, 0, 1])],
    ];
    let n = (lens.len() * lists.len()) as u64;
    Family::new("strings of every length up to 300 and around powers of two", n, move |i, ctx| {
        let a = Alpha::abc();
        let l = lens[i as usize / lists.len()];
        let rules = &lists[i as usize % lists.len()];
        let mut pats: Vec<Vec<u8>> = vec![(0..l).map(|_| 0).collect(), (0..l).map(|k| (k % 3 != 0) as u8 ^ 1).collect(), (0..l).map(|k| (k % 7 == 6) as u8).collect()];
        if l > 0 && l <= 130 { for p in 0..l { let mut v = vec![3u8; l]; v[p] = 0; pats.push(v); } }
        for s in &pats {
            // contexts cost time proportional to the length in the code as it stands
            if l > 5000 && rules.iter().any(|r| !r.left.is_empty() || !r.right.is_empty()) { continue }
            check(&a, rules, s)?;
            ctx.trans(1);
            ctx.validated(1);
            ctx.beat();
        }
        ctx.state(hash(&(l, rules)));
        Ok(())
    }).patience(120)
}

/// Matches that lie across every border a long string might be cut at.
fn borders(tier: Tier) -> Family {
    // in the code as it stands, contexts cost time proportional to the length at each place
    let most = tier.pick(17_000, 33_000);
    let lens: Vec<usize> = lengths(0, tier.pick(33_000, 66_000)).into_iter().filter(|l| *l > 60).collect();
    let n = lens.len() as u64 * 7 * 4;
    Family::new("contexts across every border of long strings", n, move |i, ctx| {
        let d = digits(i, &[lens.len() as u64, 7, 4]);
        let a = Alpha::many("b", 9);
        let (l, shift) = (lens[lens.len() - 1 - d[0]], d[1] as i64 - 3);
        if l > most && (shift.abs() > 1 || d[2] == 0 || d[2] == 3) { return Ok(()) }
        let rules = match d[2] {
            1 => vec![Rule::new(&[1], 0, &[], &[7, 1]), Rule::new(&[], 0, &[], &[8])],
            2 => vec![Rule::new(&[], 0, &[2], &[]), Rule::new(&[], 0, &[], &[8])],
            _ => vec![Rule::new(&[3, 1], 0, &[2, 3], &[5]), Rule::new(&[], 0, &[], &[8])],
        };
        let mut s = vec![3u8; l];
        // round numbers and the quarters of the string
        let mut at: Vec<usize> = (5..21).map(|b| 1usize << b).chain([100, 1000, 10_000, 100_000, l / 4, l / 2, l / 4 * 3, l / 3, l]).collect();
        at.sort_unstable();
        let mut last = -10i64;
        for b in at {
            let p = b as i64 + shift;
            if p < 0 || p >= l as i64 || p - last < 8 { continue }
            last = p;
            let p = p as usize;
            s[p] = 0;
            // both neighbours, the left one, the right one, none
            if d[2] != 2 && d[2] != 3 && p > 0 { s[p - 1] = 1 }
            if d[2] != 1 && d[2] != 3 && p + 1 < l { s[p + 1] = 2 }
        }
        check(&a, &rules, &s)?;
        ctx.done(hash(&(l, shift, d[2])), 2);
        Ok(())
    }).patience(120)
}

/// Lists of many rules: the first that matches wins, wherever it stands.
fn many_rules(tier: Tier) -> Family {
    let lens = lengths(tier.pick(70, 300), tier.pick(1100, 4200));
    let n = lens.len() as u64;
    Family::new("rule lists of every length", n, move |i, ctx| {
        let m = lens[i as usize];
        let a = Alpha::many("r", m.min(200) + 4);
        let k = m.min(200) as u8;
        if m > 200 {
            // more rules than symbols: contexts tell them apart
            let b = Alpha::abc();
            let mut rules: Vec<Rule> = vec![];
            for j in 0..m { rules.push(Rule::new(&(0..12).map(|t| (j >> t & 1) as u8).collect::<Vec<_>>(), 2, &[], &[(j % 5) as u8 + 3])) }
            for j in [0, 1, m / 2, m - 2, m - 1] {
                let mut s: Vec<u8> = (0..12).map(|t| (j >> t & 1) as u8).collect();
                s.push(2);
                check(&b, &rules, &s)?;
            }
        } else {
            let rules: Vec<Rule> = (0..k).map(|j| Rule::new(&[], j, &[], &[(j + 1) % (k + 3), j])).collect();
            let s: Vec<u8> = (0..k + 4).chain((0..k).rev()).collect();
            check(&a, &rules, &s)?;
            // doubled: the second half never applies
            let mut twice = rules.clone();
            twice.extend((0..k).map(|j| Rule::new(&[], j, &[], &[])));
            check(&a, &twice, &s)?;
            // a rule for the same target with a context, before and after the plain one
            for at in [0, rules.len() / 2, rules.len()] {
                let mut v = rules.clone();
                v.insert(at, Rule::new(&[0], 1, &[], &[k]));
                v.insert(at, Rule::new(&[], k, &[k + 1], &[]));
                check(&a, &v, &s)?;
            }
        }
        ctx.done(hash(&m), 5);
        Ok(())
    })
}

/// Two rules of a long list match at the same place: the earlier one wins, wherever the two stand.
fn two_of_many(tier: Tier) -> Family {
    let all = tier.pick(40, 80);
    let lens: Vec<usize> = lengths(all, tier.pick(1200, 9000)).into_iter().filter(|l| *l >= 2).collect();
    let n = lens.len() as u64;
    Family::new("two matching rules anywhere in a long list", n, move |i, ctx| {
        let m = lens[i as usize];
        let a = Alpha::many("r", 80);
        let at: Vec<usize> = if m <= all { (0..m).collect() } else {
            let mut v: Vec<usize> = [0, 1, 2, 15, 16, 20, 21, 31, 32, 63, 64, 127, 128, 255, 256, m / 4, m / 2 - 1, m / 2, m / 2 + 1, m - 3, m - 2, m - 1].into_iter().filter(|k| *k < m).collect();
            v.sort_unstable();
            v.dedup();
            v
        };
        // rules that match nowhere, each with a head of its own
        let filler = |k: usize| Rule::new(&[30 + (k % 40) as u8, 70, 30 + (k / 40 % 40) as u8], if k % 2 == 0 { (k / 1600) as u8 + 10 } else { 0 }, &[], &[71]);
        let mut prods: Vec<Production> = a.rules(&(0..m).map(filler).collect::<Vec<_>>());
        let two: [(Rule, Rule); 5] = [
            (Rule::new(&[], 0, &[], &[3, 4]), Rule::new(&[1], 0, &[], &[5])),
            (Rule::new(&[1], 0, &[], &[5]), Rule::new(&[], 0, &[], &[3, 4])),
            (Rule::new(&[1], 0, &[2], &[6]), Rule::new(&[], 0, &[2], &[])),
            (Rule::new(&[], 0, &[2], &[]), Rule::new(&[0, 1], 0, &[], &[7, 7])),
            (Rule::new(&[], 0, &[], &[8]), Rule::new(&[], 0, &[], &[9])),
        ];
        let strs: [&[u8]; 3] = [&[0, 1, 0, 2], &[1, 0], &[0, 0, 2, 1]];
        for (x, y) in &two {
            let (px, py) = (a.rule(x), a.rule(y));
            let want: Vec<Vec<u8>> = strs.iter().map(|s| model::step(&[x.clone(), y.clone()], s)).collect();
            for (k, p) in at.iter().enumerate() { for q in &at[k + 1..] {
                let (ox, oy) = (std::mem::replace(&mut prods[*p], px.clone()), std::mem::replace(&mut prods[*q], py.clone()));
                for (s, w) in strs.iter().zip(&want) {
                    let input = || format!("{m} rules of which number {p} is {}, number {q} is {} and the others match nowhere; string {}", a.rule_text(x), a.rule_text(y), a.text(s));
                    expect_string(&a, calm(input, || derive_once(a.string(s), &prods))?, w, input)?;
                }
                // through a system, at fewer places
                if (m <= 24 || (*q == m - 1 && *p < 70 || *q == p + 1)) && !x.same_head(y) {
                    let sys = System::new();
                    for r in &prods { oops(sys.add_production(r.clone()), "add")?; }
                    for (s, w) in strs.iter().zip(&want) {
                        let input = || format!("a System with {m} rules of which number {p} is {}, number {q} is {} and the others match nowhere; string {}", a.rule_text(x), a.rule_text(y), a.text(s));
                        expect_string(&a, calm(input, || sys.derive_once(a.string(s)))?, w, input)?;
                        expect_string(&a, calm(input, || sys.derive(a.string(s), 1.into()))?, w, input)?;
                    }
                }
                prods[*p] = ox;
                prods[*q] = oy;
                ctx.trans(3);
                ctx.validated(3);
                ctx.beat();
            } }
        }
        ctx.state(hash(&m));
        Ok(())
    }).chunk(1).patience(120)
}

fn long_bodies(tier: Tier) -> Family {
    let lens = lengths(300, tier.pick(1 << 17, 1 << 21));
    let n = lens.len() as u64;
    Family::new("replacements of every length", n, move |i, ctx| {
        let a = Alpha::abc();
        let l = lens[i as usize];
        let body: Vec<u8> = (0..l).map(|k| (k % 4) as u8).collect();
        let rules = vec![Rule::new(&[], 0, &[], &body), Rule::new(&[], 1, &[], &[])];
        for s in [&[0u8][..], &[1, 0, 1], &[0, 2, 0], &[0, 1, 0, 3]] { check(&a, &rules, s)? }
        ctx.done(hash(&l), 4);
        Ok(())
    })
}

/// Symbols whose codes are far apart and large.
fn far_codes(tier: Tier) -> Family {
    let gaps = tier.pick(vec![0usize, 1, 27, 155, 156, 157, 900, 4000, 33000, 65436, 65437, 70000], (0..300).chain([900, 4000, 8100, 16300, 33000, 65436, 65437, 70000, 131000, 300000]).collect());
    let rules = all_rules(2, &[&[], &[1, 0]]);
    let n = gaps.len() as u64;
    Family::new("symbols with distant codes", n, move |i, ctx| {
        // a fresh process, then so many other symbols between A and B
        let rules = rules.clone();
        let gap = gaps[i as usize];
        let r = in_child(60, move || {
            let first = Symbol::build("A").unwrap();
            for k in 0..gap { Symbol::build(format!("gap{k}")).unwrap(); }
            let mut a = Alpha::abc();
            a.syms[0] = first;
            for r1 in &rules { for r2 in &rules {
                for s in [&[0u8, 1, 0, 0, 1, 1][..], &[1, 0, 0], &[0]] {
                    if let Err(f) = check(&a, &[r1.clone(), r2.clone()], s) { return format!("-{}: {}", f.input, f.what).into_bytes() }
                }
            } }
            vec![b'+']
        });
        match r.map(|b| String::from_utf8_lossy(&b).into_owned()) {
            Ok(s) if s.starts_with('+') => { ctx.done(hash(&gap), 900); Ok(()) }
            Ok(s) => fail(format!("{gap} symbols interned between A and B; {}", &s[1..]), "wrong step"),
            Err(m) => fail(format!("{gap} symbols interned between A and B"), m),
        }
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    let r2 = all_rules(2, &[&[], &[0], &[1], &[0, 1]]);
    let few = all_rules(2, &[&[], &[1, 0]]);
    let mut v = vec![
        small("every list of up to 2 rules over 2 symbols, every string up to length 4", r2.clone(), 2, 2, 4),
        small("every list of up to 2 rules over 3 symbols, every string up to length 3", all_rules(3, &[&[2, 0]]), 2, 3, 3),
        long_strings(tier), borders(tier), many_rules(tier), two_of_many(tier), long_bodies(tier), far_codes(tier),
    ];
    if tier == Tier::Thorough {
        v.push(small("every list of up to 3 rules over 2 symbols, every string up to length 5", few, 3, 2, 5));
        v.push(small("every list of up to 2 rules over 2 symbols, every string up to length 7", r2, 2, 2, 7));
        v.push(small("every list of up to 2 rules over 3 symbols, every string up to length 5", all_rules(3, &[&[], &[2, 0]]), 2, 3, 5));
    }
    v
}

pub const PROPERTY: Property = Property {
    id: "C05", level: "model_checking",
    rule: "Exhaustive small scope (all rule lists and strings over a small alphabet) plus sweeps of one size at a time; each step of the real code is compared with a reference rewriting. Distinct states are distinct (rules, resulting string) pairs.",
    assumptions: &["rules have one alternative each (C09 and C23 cover several)"],
    families,
};
