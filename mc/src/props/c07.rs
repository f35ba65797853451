//! C07: n iterations are n steps.
use crate::{bridge::*, draws, engine::*, model::{self, Rule}, util::*};
use rusty_systems::prelude::*;
use rusty_systems::system::{derive, derive_once};
use std::collections::BTreeMap;

fn system(a: &Alpha, rules: &[Rule]) -> Result<System, Fail> {
    let s = System::new();
    for p in a.rules(rules) { oops(s.add_production(p), "add")?; }
    Ok(s)
}

fn both(a: &Alpha, sys: &System, rules: &[Rule], s: &[u8], n: usize, want: &[u8]) -> Case {
    let input = || format!("rules {}; string {}; {n} iterations", a.rules_text(rules), show(&a.text(s)));
    let prods = a.rules(rules);
    expect_string(a, calm(input, || derive(a.string(s), &prods, RunSettings::for_max_iterations(n)))?, want, input)?;
    expect_string(a, calm(input, || sys.derive(a.string(s), n.into()))?, want, || format!("{} (through a System)", input()))
}

fn small(name: &str, rules: Vec<Rule>, k: u32, syms: usize, max: u32, iters: usize) -> Family {
    let lists = Seqs::new(rules.len(), 0, k);
    let strs = Seqs::new(syms, 0, max);
    Family::new(name, lists.size(), move |i, ctx| {
        let a = Alpha::abc();
        let list: Vec<Rule> = lists.get(i).into_iter().map(|x| rules[x].clone()).collect();
        if (0..list.len()).any(|i| (0..i).any(|j| list[i].same_head(&list[j]))) { return Ok(()) }
        let sys = system(&a, &list)?;
        let spelt = a.rules_spelt(&list);
        let (pl, sl) = (sys.production_len(), sys.symbol_len());
        for j in 0..strs.size() {
            let s: Vec<u8> = strs.get(j).into_iter().map(|c| c as u8).collect();
            let mut w = vec![s.clone()];
            for k in 0..iters { let next = model::step(&list, &w[k]); w.push(next); }
            for n in 0..=iters {
                both(&a, &sys, &list, &s, n, &w[n])?;
                // split in two at every point
                for m in 0..=n {
                    let input = || format!("rules {}; string {}; {m} then {} iterations", a.rules_text(&list), a.text(&s), n - m);
                    let mid = calm(input, || sys.derive(a.string(&s), m.into()))?;
                    let mid = oops(mid, &input())?;
                    expect_string(&a, calm(input, || sys.derive(mid, (n - m).into()))?, &w[n], input)?;
                }
            }
            {
                let input = || format!("rules {}, with empty contexts; string {}; {iters} iterations", a.rules_text(&list), a.text(&s));
                expect_string(&a, calm(input, || derive(a.string(&s), &spelt, iters.into()))?, &w[iters], input)?;
            }
            // by single steps
            let mut cur = a.string(&s);
            for (n, x) in w.iter().enumerate() {
                let input = || format!("rules {}; string {}; {n} single steps", a.rules_text(&list), a.text(&s));
                if !a.same(&cur, x) { return fail(input(), format!("gave {cur} instead of {}", a.text(x))) }
                cur = oops(if n % 2 == 0 { sys.derive_once(cur) } else { derive_once(cur, &a.rules(&list)) }, &input())?;
            }
            ctx.state(hash(&(&w[iters], &list)));
        }
        if (pl, sl) != (sys.production_len(), sys.symbol_len()) || pl != list.len() { return fail(a.rules_text(&list), "deriving changed the system") }
        ctx.trans(strs.size() * (iters as u64 + 1) * 4);
        ctx.validated(strs.size());
        ctx.sample(|| format!("rules {}", a.rules_text(&list)));
        Ok(())
    })
}

/// Every iteration count on strings that cycle with a known period or settle late.
fn counts(tier: Tier) -> Family {
    let ns = lengths(tier.pick(150, 400), tier.pick(5000, 70000));
    let shapes = 6u64;
    let n = ns.len() as u64 * shapes;
    Family::new("every iteration count", n, move |i, ctx| {
        let (n, shape) = (ns[(i / shapes) as usize], i % shapes);
        let a = Alpha::many("c", 60);
        let (rules, s): (Vec<Rule>, Vec<u8>) = match shape {
            // a cycle of 2 (the string alternates), of 3 and of 41
            0 => (vec![Rule::new(&[], 0, &[], &[1]), Rule::new(&[], 1, &[], &[0])], vec![0, 1, 0]),
            1 => (vec![Rule::new(&[], 0, &[], &[1]), Rule::new(&[], 1, &[], &[2]), Rule::new(&[], 2, &[], &[0])], vec![0, 1]),
            2 => ((0..41u8).map(|k| Rule::new(&[], k, &[], &[(k + 1) % 41])).collect(), vec![0, 7, 20]),
            // settles after 50 steps; vanishes after 50 steps
            3 => ((0..50u8).map(|k| Rule::new(&[], k, &[], &[k + 1])).collect(), vec![0]),
            4 => ((0..50u8).map(|k| if k < 49 { Rule::new(&[], k, &[], &[k + 1]) } else { Rule::new(&[], k, &[], &[]) }).collect(), vec![0, 0]),
            // a signal walks along the string and bounces: context rules, long quiet stretches
            _ => (vec![Rule::new(&[1], 0, &[], &[1]), Rule::new(&[], 1, &[0], &[0]), Rule::new(&[], 1, &[], &[2]), Rule::new(&[], 0, &[2], &[2]), Rule::new(&[0], 2, &[], &[0]), Rule::new(&[], 2, &[], &[1])],
                  std::iter::once(1).chain(std::iter::repeat_n(0, 12)).collect()),
        };
        if shape == 2 && n > 6000 { return Ok(()) }
        let sys = system(&a, &rules)?;
        let mut w = s.clone();
        for _ in 0..n { w = model::step(&rules, &w) }
        both(&a, &sys, &rules, &s, n, &w)?;
        for m in [1, n / 2, n.saturating_sub(1)] { if m < n {
            let mid = oops(sys.derive(a.string(&s), m.into()), "split")?;
            expect_string(&a, sys.derive(mid, (n - m).into()), &w, || format!("rules {}; string {}; {m} then {} iterations", a.rules_text(&rules), a.text(&s), n - m))?;
        } }
        ctx.done(hash(&(shape, &w)), n as u64 * 2);
        Ok(())
    }).patience(120)
}

/// Iteration counts around every power of two, on one symbol that goes round in a cycle of three.
fn large_counts(tier: Tier) -> Family {
    let mut ns: Vec<usize> = (13..=tier.pick(18, 22)).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).collect();
    ns.extend([(1 << 24) + 1, 1_000_000]);
    let n = ns.len() as u64;
    Family::new("large iteration counts", n, move |i, ctx| {
        let n = ns[(n - 1 - i) as usize];
        let a = Alpha::abc();
        let rules = vec![Rule::new(&[], 0, &[], &[1]), Rule::new(&[], 1, &[], &[2]), Rule::new(&[], 2, &[], &[0])];
        let input = || format!("A -> B; B -> C; C -> A; string A; {n} iterations");
        let want = [(n % 3) as u8];
        if n % 2 == 0 { let sys = system(&a, &rules)?; expect_string(&a, calm(input, || sys.derive(a.string(&[0]), n.into()))?, &want, input)?; }
        else { expect_string(&a, calm(input, || derive(a.string(&[0]), &a.rules(&rules), n.into()))?, &want, input)?; }
        ctx.done(hash(&n), n as u64);
        Ok(())
    }).chunk(1).patience(240)
}

/// With random choices too, n iterations give what n steps give: on every sequence of answers of
/// the random source the same string, or at least every string with the same probability.
fn stochastic(tier: Tier) -> Family {
    let bodies: [&[u8]; 5] = [&[], &[0], &[1], &[0, 1], &[0, 0]];
    let pairs: Vec<(usize, usize)> = (0..5).flat_map(|x| (0..5).map(move |y| (x, y))).filter(|(x, y)| x != y).collect();
    let strs = Seqs::new(2, 1, 2);
    let (np, ns) = (pairs.len() as u64, strs.size());
    let cap = tier.pick(12, 16);
    Family::new("random choices: n iterations against n steps", np * (np + 1) * ns * 3, move |i, ctx| {
        let d = digits(i, &[np, np + 1, ns, 3]);
        let a = Alpha::abc();
        let s: Vec<u8> = strs.get(d[2] as u64).into_iter().map(|c| c as u8).collect();
        let n = d[3] + 2;
        let mut rules: Vec<Rule> = vec![];
        for (t, k) in [(0u8, d[0]), (1, d[1])] { if let Some((x, y)) = pairs.get(k) { let mut r = Rule::new(&[], t, &[], bodies[*x]); r.bodies.push(bodies[*y].to_vec()); rules.push(r) } }
        // the exact probabilities; each choice is a fair coin
        let mut want: BTreeMap<Vec<u8>, f64> = BTreeMap::from([(s.clone(), 1.0)]);
        let mut need = 0;
        for _ in 0..n {
            let mut next = BTreeMap::new();
            let mut most = 0;
            for (x, p) in &want {
                let mut acc: BTreeMap<Vec<u8>, f64> = BTreeMap::from([(vec![], *p)]);
                let mut k = 0;
                for c in x {
                    let mut b2: BTreeMap<Vec<u8>, f64> = BTreeMap::new();
                    match rules.iter().find(|r| r.target == *c) {
                        None => for (mut y, q) in acc { y.push(*c); *b2.entry(y).or_default() += q },
                        Some(r) => { k += 1; for (y, q) in acc { for b in &r.bodies { let mut z = y.clone(); z.extend_from_slice(b); *b2.entry(z).or_default() += q / 2.0; } } }
                    }
                    acc = b2;
                }
                most = most.max(k);
                for (y, q) in acc { *next.entry(y).or_default() += q }
            }
            want = next;
            need += most;
            if need > cap { return Ok(()) }
        }
        let sys = System::new();
        for p in a.rules(&rules) { oops(sys.add_production(p), "add")?; }
        let prods = a.rules(&rules);
        let input = format!("rules {}; string {}; {n} iterations", a.rules_text(&rules), a.text(&s));
        let start = a.string(&s);
        let back = |r: Result<ProductionString, Error>| -> Result<Vec<u8>, String> {
            let r = r.map_err(|e| format!("failed: {e}"))?;
            r.iter().map(|x| a.syms.iter().position(|y| y == x).map(|i| i as u8).ok_or(format!("gave {r}"))).collect()
        };
        let want: BTreeMap<Result<Vec<u8>, String>, f64> = want.into_iter().map(|(k, p)| (Ok(k), p)).collect();
        let run = |way: usize| -> Result<Vec<u8>, String> { quiet(|| match way {
            0 => back(sys.derive(start.clone(), n.into())),
            1 => back(derive(start.clone(), &prods, n.into())),
            _ => back((0..n).try_fold(start.clone(), |s, _| sys.derive_once(s))),
        }).unwrap_or_else(Err) };
        for way in 0..3 {
            let name = ["System::derive", "derive", "single steps"][way];
            let ok = match draws::tree(2, need + 2, 1 << 18, || run(way)) {
                None => false,
                Some((got, runs, d)) => { ctx.extra(DRAWS, d); ctx.trans(runs); ctx.validated(1); draws::differ(&got, &want).is_none_or(|(_, x, y)| (x - y).abs() < 1e-9) }
            };
            if ok { continue }
            if let Err((k, g, w)) = draws::free_agrees(&want, 1 << 15, || run(way)) {
                let k = match k { Ok(s) => a.text(&s), Err(e) => e };
                return fail(format!("{input} ({name})"), format!("{k:?} comes with frequency {g:.5} instead of {w:.5}"));
            }
        }
        ctx.state(hash(&(&rules, &s, n)));
        Ok(())
    })
}

/// Rules that leave the string as it is for any number of steps and then change it after all: the
/// last step is as good as the first.
fn late(tier: Tier) -> Family {
    let ns: Vec<usize> = lengths(tier.pick(300, 1100), tier.pick(5000, 70_000)).into_iter().filter(|n| *n > 0).collect();
    let n = ns.len() as u64 * 4;
    Family::new("a change after any number of steps without one", n, move |i, ctx| {
        let (n, kind) = (ns[i as usize / 4], i % 4);
        let a = Alpha::abc();
        // with the first answers of the source the string stays as it is
        let (rules, s, stay, go, last): (Vec<Rule>, Vec<u8>, u64, u64, Vec<u8>) = match kind {
            0 => { let mut r = Rule::new(&[], 0, &[], &[0]); r.bodies.push(vec![1]); (vec![r], vec![0], 1 << 62, 3 << 62, vec![1]) }
            1 => { let mut r = Rule::new(&[], 0, &[], &[1, 0]); r.bodies.push(vec![0]); (vec![r], vec![0, 2], 3 << 62, 1 << 62, vec![1, 0, 2]) }
            2 => { let mut r = Rule::new(&[2], 0, &[], &[0]); r.bodies.push(vec![]); (vec![r, Rule::new(&[], 2, &[], &[2])], vec![2, 0, 0], 1 << 62, 3 << 62, vec![2, 0]) }
            _ => { let mut r = Rule::new(&[], 0, &[1], &[0]); r.bodies.push(vec![2, 2]); (vec![r, Rule::new(&[], 1, &[], &[1])], vec![0, 1], 1 << 62, 3 << 62, vec![2, 2, 1]) }
        };
        let sys = system(&a, &rules)?;
        let prods = a.rules(&rules);
        let mut words = vec![stay; n - 1];
        words.push(go);
        // it is the single steps which tell whether each of them takes one answer
        let (steps, used) = draws::with_words(words.clone(), || -> Result<ProductionString, Error> { let mut x = a.string(&s); for _ in 0..n { x = derive_once(x, &prods)? } Ok(x) });
        if used != n as u64 || !steps.is_ok_and(|x| a.same(&x, &last)) { ctx.trans(n as u64); return Ok(()) }
        for way in 0..2 {
            let input = || format!("rules {}; string {}; {n} iterations of which only the last changes it ({})", a.rules_text(&rules), a.text(&s), ["System::derive", "derive"][way]);
            let (r, used) = draws::with_words(words.clone(), || calm(input, || if way == 0 { sys.derive(a.string(&s), n.into()) } else { derive(a.string(&s), &prods, n.into()) }));
            let r = oops(r?, &input())?;
            if used == n as u64 || used < n as u64 { if !a.same(&r, &last) { return fail(input(), format!("gave {r} after {used} choices instead of {} after {n}", a.text(&last))) } }
        }
        ctx.done(hash(&(n, kind)), 3 * n as u64);
        Ok(())
    })
}

/// Strings that grow as far as memory sensibly allows, by every factor.
fn growth(tier: Tier) -> Family {
    let max = tier.pick(1usize << 22, 1 << 24);
    let mut cases: Vec<(usize, usize)> = (0..3).flat_map(|shape| (0..=tier.pick(18, 22)).map(move |n| (shape, n))).collect();
    for (k, f) in [2usize, 3, 4, 5, 10, 16, 100, 1000, 4096].into_iter().enumerate() {
        for n in 1.. { if f.pow(n) > max { break } cases.push((3 + k, n as usize)) }
    }
    cases.push((3, tier.pick(23, 24)));
    cases.push((11, 2));
    let factor = [2u64, 3, 4, 5, 10, 16, 100, 1000, 4096];
    cases.sort_by_key(|(_, n)| std::cmp::Reverse(*n));
    let n = cases.len() as u64;
    Family::new("growing strings", n, move |i, ctx| {
        let (shape, n) = cases[i as usize];
        let a = Alpha::abc();
        let rules = match shape {
            0 => vec![Rule::new(&[], 0, &[], &[0, 0])],
            1 => vec![Rule::new(&[], 0, &[], &[0, 1]), Rule::new(&[], 1, &[], &[0])],
            2 => vec![Rule::new(&[], 0, &[], &[1, 0, 2]), Rule::new(&[], 2, &[], &[2, 0])],
            // the last one differs, so that a lost end is seen
            k => { let f = factor[k - 3] as usize; let mut b = vec![0u8; f]; b[f - 1] = 1; vec![Rule::new(&[], 0, &[], &b), Rule::new(&[], 1, &[], &vec![0u8; f])] }
        };
        let sys = system(&a, &rules)?;
        let mut w = vec![0u8];
        for _ in 0..n { w = model::step(&rules, &w) }
        let input = || format!("{} rules; string A; {n} iterations to {} symbols (shape {shape})", rules.len(), w.len());
        let prods = a.rules(&rules);
        expect_string(&a, calm(input, || sys.derive(a.string(&[0]), n.into()))?, &w, input)?;
        ctx.beat();
        expect_string(&a, calm(input, || derive(a.string(&[0]), &prods, n.into()))?, &w, input)?;
        // and from the last but one
        if n > 1 {
            let mut v = vec![0u8];
            for _ in 0..n - 1 { v = model::step(&rules, &v) }
            expect_string(&a, calm(input, || sys.derive(a.string(&v), 1.into()))?, &w, || format!("{} (the last step alone)", input()))?;
        }
        ctx.done(hash(&(shape, n)), n as u64 * 2);
        Ok(())
    }).chunk(1).patience(240)
}

/// Long lists of rules of which several match in one place: the system keeps to their order.
fn long_lists(tier: Tier) -> Family {
    let lens: Vec<usize> = lengths(tier.pick(80, 200), tier.pick(600, 4200)).into_iter().filter(|l| *l >= 6).collect();
    let n = lens.len() as u64 * 6;
    Family::new("several iterations with long lists of rules", n, move |i, ctx| {
        let (m, turn) = (lens[i as usize / 6], i as usize % 6);
        let a = Alpha::many("l", 90);
        // six rules with overlapping heads, in six orders, at either end and in the middle of the list
        let core = [Rule::new(&[], 0, &[], &[1, 0, 2]), Rule::new(&[1], 0, &[], &[2, 0]), Rule::new(&[], 0, &[2], &[0, 1, 1]), Rule::new(&[], 1, &[], &[0]), Rule::new(&[0], 1, &[], &[1, 1]), Rule::new(&[0, 1], 2, &[0], &[0, 0])];
        let mut order: Vec<usize> = (0..6).collect();
        order.rotate_left(turn);
        if turn % 2 == 1 { order.reverse() }
        let filler = |k: usize| Rule::new(&[30 + (k % 40) as u8, 80, 30 + (k / 40 % 40) as u8], if k % 2 == 0 { (k / 3200) as u8 + 10 } else { (k / 2 % 3) as u8 }, &[], &[81]);
        let mut rules: Vec<Rule> = (0..m - 6).map(filler).collect();
        for (j, k) in order.iter().enumerate() {
            let at = match j % 3 { 0 => 0, 1 => rules.len() / 2, _ => rules.len() };
            rules.insert(at, core[*k].clone());
        }
        let few: Vec<Rule> = rules.iter().filter(|r| core.contains(r)).cloned().collect();
        let sys = system(&a, &rules)?;
        let prods = a.rules(&rules);
        for s in [&[0u8][..], &[0, 1, 2, 0], &[1, 0], &[2, 2, 1]] {
            let mut w = s.to_vec();
            for n in 0..=4usize {
                let input = || format!("{m} rules of which in this order {} can match; string {}; {n} iterations", a.rules_text(&few), a.text(s));
                if n > 0 { w = model::step(&few, &w) }
                expect_string(&a, calm(input, || sys.derive(a.string(s), n.into()))?, &w, || format!("{} (through a System)", input()))?;
                expect_string(&a, calm(input, || derive(a.string(s), &prods, n.into()))?, &w, input)?;
                ctx.trans(2);
                ctx.validated(2);
            }
            ctx.state(hash(&(m, turn, w)));
        }
        Ok(())
    })
}

/// The settings: default, from a number, and of the interpretation.
fn settings() -> Family {
    Family::new("run settings", 201, |i, ctx| {
        let a = Alpha::many("c", 60);
        let rules: Vec<Rule> = (0..41u8).map(|k| Rule::new(&[], k, &[], &[(k + 1) % 41])).collect();
        let sys = system(&a, &rules)?;
        let n = if i == 200 { 10 } else { i as usize };
        let set = if i == 200 { RunSettings::default() } else if i % 2 == 0 { RunSettings::from(n) } else { RunSettings::for_max_iterations(n) };
        if set.max_iterations != n { return fail(format!("settings {i}"), format!("max_iterations is {}", set.max_iterations)) }
        expect_string(&a, sys.derive(a.string(&[0]), set), &[(n % 41) as u8], || format!("{n} iterations of a cycle of 41"))?;
        ctx.done(hash(&n), 1);
        Ok(())
    })
}

fn rules(bodies: &[&[u8]]) -> Vec<Rule> {
    let ctx: [&[u8]; 3] = [&[], &[0], &[1]];
    let mut v = vec![];
    for b in bodies { for t in 0..2 { for l in ctx { for r in ctx { v.push(Rule::new(l, t, r, b)) } } } }
    v
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![
        small("every list of up to 2 rules over 2 symbols, strings up to length 3, up to 4 iterations, every split", rules(&[&[], &[1], &[1, 0]]), 2, 2, 3, 4),
        large_counts(tier), counts(tier), growth(tier), long_lists(tier), settings(), stochastic(tier), late(tier),
    ];
    if tier == Tier::Thorough {
        v.push(small("every list of up to 2 rules over 2 symbols, strings up to length 4, up to 5 iterations", rules(&[&[], &[0], &[1], &[0, 1]]), 2, 2, 4, 5));
        v.push(small("every list of up to 3 rules over 2 symbols, strings up to length 3, up to 4 iterations", rules(&[&[], &[1, 0]]).into_iter().step_by(1).collect(), 3, 2, 3, 4));
    }
    v
}

pub const PROPERTY: Property = Property {
    id: "C07", level: "model_checking",
    rule: "Every small rule list, start string, iteration count and split of the count, plus sweeps of the count on cycling, settling, vanishing and growing strings (to 2^24 iterations on one symbol); compared with repeated reference steps. Distinct states are distinct (rules, final string) pairs.",
    assumptions: &["rules with several alternatives: two equally likely ones, up to four iterations"],
    families,
};
