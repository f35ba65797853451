//! C23: independence of the random choices of a derivation.
use crate::{bridge::*, draws, engine::*, model, util::*};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead, ProductionStore};
use std::collections::BTreeMap;

/// Alternatives with chances in quarters (None = declared none).
#[derive(Clone, Debug, Hash)]
struct SRule { left: Vec<u8>, target: u8, right: Vec<u8>, alts: Vec<(Option<u8>, Vec<u8>)> }
impl SRule {
    fn shares(&self) -> Vec<f64> {
        if self.alts.len() == 1 { return vec![1.0] }
        let total: f64 = self.alts.iter().flat_map(|a| a.0).map(|q| q as f64 / 4.0).sum();
        let open = self.alts.iter().filter(|a| a.0.is_none()).count();
        let mut v: Vec<f64> = self.alts.iter().map(|a| a.0.map(|q| q as f64 / 4.0).unwrap_or((1.0 - total) / open as f64)).collect();
        if open == 0 { *v.last_mut().unwrap() += 1.0 - total }
        v
    }
    fn text(&self, a: &Alpha) -> String {
        let l = if self.left.is_empty() { String::new() } else { format!("{} < ", a.text(&self.left)) };
        let r = if self.right.is_empty() { String::new() } else { format!(" > {}", a.text(&self.right)) };
        let b: Vec<String> = self.alts.iter().map(|(c, s)| format!("{}{}", c.map(|c| format!("{} ", c as f64 / 4.0)).unwrap_or_default(), a.text(s))).collect();
        format!("{l}{}{r} -> {}", a.names[self.target as usize], b.join(" | "))
    }
    /// One production per alternative, to be merged by head.
    fn parts(&self, a: &Alpha) -> Vec<Production> {
        let cx = |c: &Vec<u8>| if c.is_empty() { None } else { Some(a.string(c)) };
        self.alts.iter().map(|(c, b)| {
            let s = a.string(b);
            let body = match c { None => ProductionBody::new(s), Some(q) => ProductionBody::try_with_chance(*q as f32 / 4.0, s).unwrap() };
            Production::new(ProductionHead::build(cx(&self.left), a.syms[self.target as usize], cx(&self.right)).unwrap(), body)
        }).collect()
    }
}
type Dist = BTreeMap<Vec<u8>, f64>;
/// The distribution after one step, and the most choices any string in it needs.
fn step(rules: &[SRule], d: &Dist) -> (Dist, usize) {
    let mut out = Dist::new();
    let mut most = 0;
    for (s, p) in d {
        let mut acc = Dist::from([(vec![], *p)]);
        let mut choices = 0;
        for i in 0..s.len() {
            let mut next = Dist::new();
            match rules.iter().find(|r| model::matches(&r.left, &r.target, &r.right, s, i)) {
                None => for (x, q) in acc { let mut x = x; x.push(s[i]); *next.entry(x).or_insert(0.0) += q },
                Some(r) => {
                    if r.alts.len() > 1 { choices += 1 }
                    let sh = r.shares();
                    for (x, q) in acc { for (k, (_, b)) in r.alts.iter().enumerate() { if sh[k] > 0.0 {
                        let mut y = x.clone(); y.extend_from_slice(b); *next.entry(y).or_insert(0.0) += q * sh[k];
                    } } }
                }
            }
            acc = next;
        }
        most = most.max(choices);
        for (x, q) in acc { *out.entry(x).or_insert(0.0) += q }
    }
    (out, most)
}

#[derive(Clone, Copy, PartialEq)]
enum Way { SystemMerged, SystemWhole, Free }

fn check(a: &Alpha, rules: &[SRule], s: &[u8], n: usize, way: Way, cap: usize, thorough_look: bool, ctx: &mut Ctx) -> Case {
    let mut want = Dist::from([(s.to_vec(), 1.0)]);
    let mut need = 0;
    for _ in 0..n { let (d, m) = step(rules, &want); want = d; need += m; }
    if need > cap || need == 0 { return Ok(()) }
    let input = format!("rules {}; string {}; {n} iterations", rules.iter().map(|r| r.text(a)).collect::<Vec<_>>().join("; "), a.text(s));
    let mut whole: Vec<Production> = vec![];
    let sys = System::new();
    for r in rules {
        let parts = r.parts(a);
        let mut p = parts[0].clone();
        for q in &parts[1..] { p.merge(q.clone()) }
        if way == Way::SystemWhole { oops(sys.add_production(p.clone()), &input)?; }
        whole.push(p);
    }
    // alternatives of different rules arrive interleaved
    if way == Way::SystemMerged { for k in 0..8 { for r in rules { if let Some(p) = r.parts(a).get(k) { oops(sys.add_production(p.clone()), &input)?; } } } }
    let start = a.string(s);
    let run = || -> Result<Vec<u8>, String> {
        let r = quiet(|| match way { Way::Free => rusty_systems::system::derive(start.clone(), &whole, n.into()), _ if n == 1 => sys.derive_once(start.clone()), _ => sys.derive(start.clone(), n.into()) })?;
        let r = r.map_err(|e| format!("failed: {e}"))?;
        r.iter().map(|x| a.syms.iter().position(|y| y == x).map(|i| i as u8).ok_or(format!("gave {r}"))).collect()
    };
    let want: BTreeMap<Result<Vec<u8>, String>, f64> = want.into_iter().map(|(k, p)| (Ok(k), p)).collect();
    let show = |r: &Result<Vec<u8>, String>| match r { Ok(s) => format!("{:?}", a.text(s)), Err(e) => e.clone() };
    let why = match draws::tree(4, need + 2, 1 << 18, run) {
        None => "it draws more words than it has choices".to_string(),
        Some((got, runs, d)) => {
            ctx.extra(DRAWS, d);
            ctx.trans(runs);
            ctx.validated(1);
            match draws::differ(&got, &want) { Some((k, g, w)) if (g - w).abs() > 1e-9 => format!("{} has probability {g} instead of {w}", show(&k)), _ => {
                ctx.state(hash(&(rules, s, n)));
                ctx.sample(|| format!("{input}: {} outcomes over {runs} runs", got.len()));
                return Ok(());
            } }
        }
    };
    // is it only how the words are spent?
    match draws::free_agrees(&want, if thorough_look { 1 << 16 } else { 1 << 11 }, run) {
        Ok(()) => { ctx.state(hash(&(rules, s, n))); Ok(()) }
        Err((k, g, w)) => fail(input, format!("{why}; on a pseudo-random stream {} came with frequency {g:.5} instead of {w:.5}", show(&k))),
    }
}

fn alternatives() -> Vec<Vec<(Option<u8>, Vec<u8>)>> {
    let bodies: [&[u8]; 5] = [&[], &[0], &[1], &[0, 1], &[0, 0]];
    let mut v = vec![];
    for (c, d) in [(None, None), (Some(1), None), (Some(1), Some(1)), (Some(3), Some(1))] {
        for x in bodies { for y in bodies { if x != y { v.push(vec![(c, x.to_vec()), (d, y.to_vec())]) } } }
    }
    v.push(vec![(None, vec![0]), (None, vec![0]), (None, vec![1]), (None, vec![])]);
    v.push(vec![(Some(1), vec![0]), (None, vec![1]), (Some(2), vec![0, 0])]);
    v
}
fn seconds() -> Vec<Option<SRule>> {
    let alts = vec![(Some(1), vec![0u8]), (None, vec![1u8])];
    vec![None,
         Some(SRule { left: vec![1], target: 0, right: vec![], alts: alts.clone() }),
         Some(SRule { left: vec![], target: 0, right: vec![0], alts: vec![(None, vec![1]), (None, vec![2])] }),
         Some(SRule { left: vec![], target: 1, right: vec![], alts: alts.clone() }),
         Some(SRule { left: vec![], target: 1, right: vec![], alts: vec![(None, vec![0])] })]
}

fn small(tier: Tier) -> Family {
    let alts = alternatives();
    let secs = seconds();
    let strs = Seqs::new(2, 1, 3);
    let iters = 3u64;
    let ways = 2u64;
    let size = alts.len() as u64 * secs.len() as u64 * strs.size() * iters * ways;
    let cap = tier.pick(6, 8);
    let radices = [ways, iters, strs.size(), secs.len() as u64, alts.len() as u64];
    Family::new("every small stochastic system, string and iteration count", size, move |i, ctx| {
        let d = digits(i, &radices);
        let a = Alpha::abc();
        let s: Vec<u8> = strs.get(d[2] as u64).into_iter().map(|c| c as u8).collect();
        let mut rules = vec![];
        if let Some(r) = &secs[d[3]] { rules.push(r.clone()) }
        rules.push(SRule { left: vec![], target: 0, right: vec![], alts: alts[d[4]].clone() });
        let way = if d[0] == 0 { Way::SystemMerged } else if (d[2] + d[4]) % 2 == 0 { Way::Free } else { Way::SystemWhole };
        check(&a, &rules, &s, d[1] + 1, way, cap, i % 41 == 0, ctx)
    })
}

/// Each occurrence in a long string answers to its own word.
fn positions(tier: Tier) -> Family {
    let lens = lengths(tier.pick(140, 400), tier.pick(5000, 40_000));
    let n = lens.len() as u64;
    Family::new("long strings: every occurrence follows its own draw", n, move |i, ctx| {
        let l = lens[i as usize];
        if l == 0 { return Ok(()) }
        let a = Alpha::abc();
        let sys = System::new();
        oops(sys.add_production("A -> 0.5 B"), "add")?;
        oops(sys.add_production("A -> 0.5 C"), "add")?;
        let start = a.string(&vec![0u8; l]);
        let input = format!("A -> 0.5 B | 0.5 C on {l} times A");
        let (lo, hi) = (1u64 << 62, 3u64 << 62);
        let run = |w: Vec<u64>| -> Result<(Vec<u32>, u64), Fail> {
            let (r, d) = draws::with_words(w, || calm(|| input.clone(), || sys.derive_once(start.clone())));
            let r = oops(r?, &input)?;
            if r.len() != l { return fail(&input, format!("the result has {} symbols", r.len())) }
            Ok((r.iter().map(|s| s.code()).collect(), d))
        };
        let (base, d) = run(vec![lo; l])?;
        let (top, _) = run(vec![hi; l])?;
        let mut odd: Option<String> = None;
        if d != l as u64 { odd = Some(format!("{d} words were drawn")) }
        else if base.iter().zip(&top).any(|(x, y)| x == y) { odd = Some("some occurrence does not follow its draw".into()) }
        else {
            let mut hit = vec![false; l];
            let js: Vec<usize> = if l <= 600 { (0..l).collect() } else { (0..64).map(|k| k * (l - 1) / 63).collect() };
            for j in js {
                let mut w = vec![lo; l];
                w[j] = hi;
                let (r, _) = run(w)?;
                ctx.trans(1);
                let diff: Vec<usize> = (0..l).filter(|p| r[*p] != base[*p]).collect();
                match diff[..] { [p] if !hit[p] => hit[p] = true, _ => { odd = Some(format!("draw {j} decides positions {diff:?}")); break } }
            }
        }
        if let Some(why) = odd {
            // is it only how the words are spent? Each pair of occurrences must agree half of the
            // time, and so must all pairs at one distance taken together.
            vctl::rng::set(vctl::rng::Mode::Free);
            let runs = 4096usize;
            let mut bits = vec![vec![0u64; runs / 64]; l];
            for k in 0..runs {
                let r = oops(sys.derive_once(start.clone()), &input)?;
                if r.len() != l { return fail(&input, format!("the result has {} symbols", r.len())) }
                for (p, s) in r.iter().enumerate() { if *s == a.syms[1] { bits[p][k / 64] |= 1 << (k % 64) } }
                ctx.beat();
            }
            let off = |same: u64, n: usize| { let f = same as f64 / n as f64; ((f - 0.5).abs() > 7.5 * 0.5 / (n as f64).sqrt()).then_some(f) };
            for d in (1..l).filter(|d| l < 3000 || *d < 300 || d.is_power_of_two() || *d > l - 20) {
                let mut all = 0;
                for p in d..l {
                    let same = runs as u64 - bits[p].iter().zip(&bits[p - d]).map(|(x, y)| (x ^ y).count_ones() as u64).sum::<u64>();
                    if let Some(f) = off(same, runs) { return fail(input, format!("{why}; on a pseudo-random stream position {p} agrees with {} in {f:.4} of the runs", p - d)) }
                    all += same;
                }
                // (in one run the pairs at one distance are not quite independent of one another, but uncorrelated)
                if let Some(f) = off(all, runs * (l - d)) { return fail(input, format!("{why}; on a pseudo-random stream positions {d} apart agree in {f:.5} of the cases")) }
                ctx.beat();
            }
        }
        ctx.done(hash(&l), 2);
        Ok(())
    }).patience(240)
}

/// A symbol that may stay as it is gets a new choice in every iteration, however many there are.
fn iterations(tier: Tier) -> Family {
    let ks = lengths(tier.pick(120, 400), tier.pick(3000, 20_000));
    let n = ks.len() as u64;
    Family::new("many iterations: the choice is made anew each time", n, move |i, ctx| {
        let k = ks[i as usize];
        let a = Alpha::abc();
        let sys = System::new();
        oops(sys.add_production("A -> 0.5 A"), "add")?;
        oops(sys.add_production("A -> 0.5 B"), "add")?;
        let (lo, hi) = (1u64 << 62, 3u64 << 62);
        let run = |w: Vec<u64>, n: usize| -> Result<(bool, u64), Fail> {
            let input = format!("A -> 0.5 A | 0.5 B on A for {n} iterations");
            let (r, d) = draws::with_words(w, || calm(|| input.clone(), || sys.derive(a.string(&[0]), n.into())));
            let r = oops(r?, &input)?;
            Ok((r.len() == 1 && r[0] == a.syms[0], d))
        };
        // which word keeps A is up to the implementation
        let keep = if run(vec![lo], 1)?.0 { lo } else { hi };
        let drop = if keep == lo { hi } else { lo };
        let mut odd: Option<String> = None;
        for (n, words, stays) in [(k, vec![keep; k], true), (k + 1, [vec![keep; k], vec![drop]].concat(), false), (k + 3, [vec![keep; k], vec![drop, keep, keep]].concat(), false), (k + 2, [vec![keep; k], vec![keep, keep]].concat(), true)] {
            let r = run(words, n)?;
            ctx.trans(n as u64);
            if r.0 != stays { odd = Some(format!("keeping A for {k} iterations{}, A {} after {n} ({} words were drawn)", if stays { "" } else { " and then dropping it" }, if r.0 { "is there" } else { "is gone" }, r.1)); break }
        }
        if let Some(why) = odd {
            let p = 0.5f64.powi(k.min(60) as i32);
            let want = BTreeMap::from([(true, p), (false, 1.0 - p)]);
            if let Err((_, g, w)) = draws::free_agrees(&want, 1 << 14, || sys.derive(a.string(&[0]), k.into()).map(|r| r[0] == a.syms[0]).unwrap_or(false)) {
                return fail(format!("A -> 0.5 A | 0.5 B on A for {k} iterations"), format!("{why}; on a pseudo-random stream the frequency is {g:.5} instead of {w:.5}"));
            }
        }
        ctx.done(hash(&k), 0);
        Ok(())
    }).patience(240)
}

/// Processes, threads and systems that know nothing of one another choose independently from the very first choice on.
fn separate(tier: Tier) -> Family {
    let n = tier.pick(12u64, 60);
    Family::new("first derivations of separate processes, threads and systems", n, move |i, ctx| {
        const L: usize = 96;
        // which of the places were kept
        let first = |i: u64| -> Vec<u8> {
            let make = || -> Result<Vec<u8>, Error> {
                let s = System::new();
                if i % 2 == 0 { s.add_production("A -> 0.5 A")?; s.add_production("A -> 0.5 B")?; }
                else { for b in ["A", "B"] { ProductionStore::add_production(&s, Production::new("A -> A".parse::<Production>()?.head().clone(), ProductionBody::new(b.parse()?)))?; } }
                let a = Symbol::build("A")?;
                let start: ProductionString = "A ".repeat(L).parse()?;
                let r = if i % 3 == 0 { s.derive(start, 1.into())? } else { s.derive_once(start)? };
                Ok(r.iter().map(|s| (*s == a) as u8).collect())
            };
            quiet(make).ok().and_then(|r| r.ok()).unwrap_or_default()
        };
        let mut all: Vec<(String, Vec<u8>)> = vec![];
        // four processes: in each two threads, one after the other, and two systems in a row
        for p in 0..4u64 {
            let r = in_child(30, || {
                let mut out = vec![];
                for t in 0..2u64 {
                    let two = std::thread::spawn(move || {
                        vctl::rng::set(vctl::rng::Mode::Free);
                        vctl::rng::seed((i * 4 + p) * 2 + t + 1);
                        [first(i), first(i)]
                    }).join().unwrap_or_default();
                    for v in two { out.push(v.len() as u8); out.extend(v) }
                }
                out
            }).or_else(|m| fail("a derivation in a fresh process", m))?;
            let mut at = 0;
            for k in 0..4 {
                let l = r.get(at).copied().unwrap_or(0) as usize;
                if l != L { return fail(format!("{L} times A with A -> 0.5 A | 0.5 B"), "the derivation failed or has another length") }
                all.push((format!("process {p}, thread {}, derivation {}", k / 2, k % 2), r[at + 1..at + 1 + l].to_vec()));
                at += 1 + l;
            }
        }
        for (k, (x, a)) in all.iter().enumerate() {
            for (y, b) in &all[..k] {
                let same = a.iter().zip(b).filter(|(p, q)| p == q).count();
                // 48 are expected, give or take five; less than once in 10^13 it is outside of this
                if !(10..=86).contains(&same) { return fail(format!("{L} times A with A -> 0.5 A | 0.5 B, with random words of its own everywhere"), format!("{x} and {y} chose the same in {same} of {L} places")) }
            }
        }
        ctx.done(hash(&i), all.len() as u64);
        Ok(())
    }).patience(150)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![positions(tier), iterations(tier), small(tier), separate(tier)] }

pub const PROPERTY: Property = Property {
    id: "C23", level: "model_checking",
    rule: "For each small stochastic system, every sequence of answers of the random source (four equal parts per draw) is run, and the exact probability of every resulting string is compared with the product rule. Long strings and many iterations: each draw is flipped alone. Distinct states are distinct (rules, string, iterations).",
    assumptions: &["chances are multiples of a quarter, so that the division is exact", "an implementation that spends its words differently is judged on a pseudo-random stream, within six standard deviations", "the thread generator itself yields independent words"],
    families,
};
