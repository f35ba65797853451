//! C09: chances of one rule's alternatives.
use crate::{bridge::*, draws, engine::*, util::*};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead, ProductionStore};
use std::collections::BTreeMap;
use vctl::rng;

/// Hundred-thousandths, so that totals are exact.
type C = Option<u32>;
const ONE: u32 = 100_000;

fn text(c: &[C]) -> String {
    let v: Vec<String> = c.iter().take(40).map(|c| c.map(decimal).unwrap_or("-".into())).collect();
    format!("{} alternatives with chances {}{}", c.len(), v.join(", "), if c.len() > 40 { ", ..." } else { "" })
}
/// The number as a person writes it.
fn decimal(c: u32) -> String {
    let s = format!("{}.{:05}", c / ONE, c % ONE);
    let t = s.trim_end_matches('0').trim_end_matches('.');
    if t.is_empty() || t == "0" { "0".into() } else { t.into() }
}
/// What each alternative should get.
fn shares(c: &[C]) -> Vec<f64> {
    if c.len() == 1 { return vec![1.0] }
    let total: u32 = c.iter().flatten().sum();
    let open = c.iter().filter(|c| c.is_none()).count();
    let rest = (ONE - total) as f64 / ONE as f64;
    let mut v: Vec<f64> = c.iter().map(|c| c.map(|c| c as f64 / ONE as f64).unwrap_or(rest / open as f64)).collect();
    if open == 0 { *v.last_mut().unwrap() += rest }
    v
}

fn production(a: &Alpha, c: &[C]) -> Production {
    let body = |k: usize| {
        let s = ProductionString::from(a.syms[k + 1]);
        match c[k] { None => ProductionBody::new(s), Some(x) => ProductionBody::try_with_chance(decimal(x).parse().unwrap(), s).expect("chance") }
    };
    let mut p = Production::new(ProductionHead::build(None, a.syms[0], None).unwrap(), body(0));
    for k in 1..c.len() { p.add_body(body(k)) }
    p
}
/// The same rule from texts, added one at a time.
fn system(a: &Alpha, c: &[C], input: &str) -> Result<System, Fail> {
    let sys = System::new();
    for (k, c) in c.iter().enumerate() {
        let t = format!("{} -> {} {}", a.names[0], c.map(decimal).unwrap_or_default(), a.names[k + 1]);
        oops(sys.add_production(t.as_str()), input)?;
    }
    Ok(sys)
}

/// The share of each alternative over `2^bits` equally spaced words.
fn tally(bits: u32, n: usize, mut pick: impl FnMut() -> Result<usize, String>) -> Result<(Vec<f64>, u64), String> {
    let mut got = vec![0u64; n];
    let mut draws = 0;
    let m = 1u64 << bits;
    for i in 0..m {
        let (r, d) = draws::with_words(vec![rng::midpoint(i, m)], &mut pick);
        got[r?] += 1;
        draws += d;
    }
    Ok((got.into_iter().map(|g| g as f64 / m as f64).collect(), draws))
}

fn judge(c: &[C], bits: u32, input: &str, ctx: &mut Ctx, mut pick: impl FnMut() -> Result<usize, String>) -> Case {
    let want = shares(c);
    let m = 1u64 << bits;
    let (got, draws) = match tally(bits, c.len(), &mut pick) { Ok(x) => x, Err(e) => return fail(input, e) };
    ctx.extra(DRAWS, draws);
    ctx.trans(m);
    ctx.validated(c.len() as u64);
    let tol = (4.0 + 2.0 * c.len() as f64) / m as f64 + 1e-5;
    let Some(k) = (0..c.len()).find(|k| (got[*k] - want[*k]).abs() > tol) else { return Ok(()) };
    // is it only how the words are spent?
    let w: BTreeMap<usize, f64> = want.iter().copied().enumerate().collect();
    match draws::free_agrees(&w, 1 << 18, || pick().unwrap_or(usize::MAX)) {
        Ok(()) => Ok(()),
        Err((j, g, p)) => fail(input, format!("alternative {k} is picked with chance {:.6} instead of {:.6} (over {m} equally spaced random words; on a pseudo-random stream alternative {j} got {g:.6} instead of {p:.6})", got[k], want[k])),
    }
}

fn check(c: &[C], bits: u32, ctx: &mut Ctx) -> Case {
    let a = Alpha::many("n", c.len() + 1);
    let input = text(c);
    let index = |s: &ProductionString| -> Result<usize, String> {
        if s.len() != 1 { return Err(format!("gave {s}")) }
        a.syms[1..].iter().position(|x| *x == s[0]).ok_or(format!("gave {s}"))
    };
    let p = production(&a, c);
    let total: u64 = c.iter().flatten().map(|c| *c as u64).sum();
    if c.len() > 1 && total > ONE as u64 {
        for w in [0, 1 << 62, u64::MAX] {
            let (r, _) = draws::with_words(vec![w], || calm(|| input.clone(), || p.body().map(|b| b.string().to_string())));
            if let Ok(b) = r? { return fail(input, format!("the total exceeds 1 but {b} was picked")) }
            let sys = system(&a, c, &input)?;
            let (r, _) = draws::with_words(vec![w], || calm(|| input.clone(), || sys.derive_once(a.string(&[0]))));
            if let Ok(b) = r? { return fail(input, format!("the total exceeds 1 but a step gave {b}")) }
        }
        ctx.done(hash(&c), 6);
        return Ok(());
    }
    judge(c, bits, &input, ctx, || quiet(|| p.body()).and_then(|b| b.map_err(|e| format!("selection failed: {e}"))).and_then(|b| index(b.string())))?;
    let sys = system(&a, c, &input)?;
    let s = a.string(&[0]);
    judge(c, bits.min(12), &input, ctx, || quiet(|| sys.derive_once(s.clone())).and_then(|b| b.map_err(|e| format!("a step failed: {e}"))).and_then(|b| index(&b)))?;
    ctx.state(hash(&c));
    ctx.sample(|| format!("{input}: shares {:?}", shares(c)));
    Ok(())
}

const PALETTE: [C; 9] = [None, Some(50_000), Some(25_000), Some(10_000), Some(30_000), Some(75_000), Some(100_000), Some(1_000), Some(33_333)];

fn lists(tier: Tier) -> Family {
    let s = Seqs::new(PALETTE.len(), 1, tier.pick(3, 4));
    let bits = tier.pick(16, 18);
    Family::new("every list of a few alternatives", s.size(), move |i, ctx| {
        let c: Vec<C> = s.get(i).into_iter().map(|k| PALETTE[k]).collect();
        check(&c, bits, ctx)
    })
}
fn short(tier: Tier) -> Family {
    let s = Seqs::new(PALETTE.len(), 4, tier.pick(4, 5));
    Family::new("every list of more alternatives, fewer words", s.size(), move |i, ctx| {
        let c: Vec<C> = s.get(i).into_iter().map(|k| PALETTE[k]).collect();
        check(&c, 10, ctx)
    })
}

/// Every way to split 1 (or just over or under it) into three hundredths and two thousandths.
fn totals() -> Family {
    let mut v: Vec<Vec<C>> = vec![];
    for t in [99, 100, 101] { for a in 1..100u32 { for b in 1..100u32 { if t > a + b { v.push(vec![Some(a * 1000), Some(b * 1000), Some((t - a - b) * 1000)]); } } } }
    for t in [999, 1000, 1001] { for a in 1..999u32 { v.push(vec![Some(a * 100), Some((t - a) * 100)]); } }
    for a in (10..100_000u32).step_by(487) { for t in [99_999, 100_000, 100_010] { if t > a { v.push(vec![Some(a), Some(t - a)]); v.push(vec![Some(a), None, Some(t - a)]) } } }
    let n = v.len() as u64;
    Family::new("every split of one into hundredths and thousandths", n, move |i, ctx| check(&v[i as usize], 6, ctx))
}

/// Many equal alternatives whose total is exactly one, or just over or under.
fn many(tier: Tier) -> Family {
    let mut v: Vec<Vec<C>> = vec![];
    for n in 1..=tier.pick(120u32, 300) {
        if ONE % n == 0 { for d in [0i64, 1, -1] { v.push(vec![Some(ONE / n); (n as i64 + d).max(1) as usize]); } }
        let f = ONE / n;
        if f > 0 { v.push(vec![Some(f); n as usize]); let mut w = vec![Some(f); n as usize]; w.push(None); w.push(None); v.push(w); }
        v.push(vec![None; n as usize]);
        let mut w = vec![None; n as usize]; w.insert(n as usize / 2, Some(40_000)); v.push(w);
    }
    for n in [125u32, 200, 250, 500, 625, 1000, 1250, 2000, 2500, 5000, 10_000] { for d in [0, 1] { v.push(vec![Some(ONE / n); (n + d) as usize]); } }
    let n = v.len() as u64;
    Family::new("many alternatives", n, move |i, ctx| check(&v[i as usize], if v[i as usize].len() > 300 { 8 } else { 14 }, ctx)).patience(120)
}

/// So many alternatives that each has a tiny chance: none may be starved or favoured. Words are
/// spread over the whole range where that is affordable, else over its ends and its middle, where
/// each alternative near them takes about eight.
fn crowds(tier: Tier) -> Family {
    let mut sizes = vec![300usize, 1000, 3000, 5000, 20_000, 100_000, 300_000];
    if tier == Tier::Thorough { sizes.push(1_000_000) }
    let n = sizes.len() as u64 * 3;
    Family::new("crowds of alternatives", n, move |i, ctx| {
        let (n, kind) = (sizes[(i / 3) as usize], i % 3);
        // all open; half of the chance declared by the first; by the last
        let mut c: Vec<C> = vec![None; n];
        match kind { 1 => c[0] = Some(50_000), 2 => c[n - 1] = Some(50_000), _ => {} }
        let input = text(&c);
        let a = Alpha::many("n", 2);
        // alternative k is written as k in binary
        let body = |k: usize| { let s: Vec<Symbol> = (0..20).map(|b| a.syms[k >> b & 1]).collect(); let s = ProductionString::from(s);
            match c[k] { None => ProductionBody::new(s), Some(x) => ProductionBody::try_with_chance(x as f32 / ONE as f32, s).expect("chance") } };
        let mut p = Production::new(ProductionHead::build(None, a.syms[0], None).unwrap(), body(0));
        for k in 1..n { p.add_body(body(k)) }
        let mut pick = || -> Result<usize, String> {
            let b = quiet(|| p.body())?.map_err(|e| format!("selection failed: {e}"))?;
            Ok(b.string().iter().enumerate().map(|(i, s)| if *s == a.syms[1] { 1usize << i } else { 0 }).sum())
        };
        let want = shares(&c);
        let m = (8 * n as u64) << (kind != 0) as u32;
        let all = n <= tier.pick(5000, 20_000);
        let windows: Vec<std::ops::Range<u64>> = if all { vec![0..m] } else { let w = 800; vec![0..w, m / 2 - w / 2..m / 2 + w / 2, m - w..m] };
        let mut bad = None;
        'w: for w in windows {
            let mut got: BTreeMap<usize, u64> = BTreeMap::new();
            for k in w.clone() {
                let (r, d) = draws::with_words(vec![rng::midpoint(k, m)], &mut pick);
                *got.entry(match r { Ok(k) => k, Err(e) => return fail(input, e) }).or_default() += 1;
                ctx.extra(DRAWS, d);
                if k % 256 == 0 { ctx.beat() }
            }
            ctx.trans(w.end - w.start);
            // those inside the window have their full share there
            let mut at = 0.0;
            for (k, x) in want.iter().enumerate() {
                let (lo, hi) = (at * m as f64, (at + x) * m as f64);
                at += x;
                let here = (hi.min(w.end as f64) - lo.max(w.start as f64)).max(0.0);
                let g = got.get(&k).copied().unwrap_or(0) as f64;
                if (g - here).abs() > 2.5 + 1e-5 * m as f64 / n as f64 { bad = Some((k, g, here)); break 'w }
            }
        }
        if let Some((k, g, here)) = bad {
            // judged instead in a hundred groups on a pseudo-random stream
            let mut groups: BTreeMap<usize, f64> = BTreeMap::new();
            for (k, x) in want.iter().enumerate() { *groups.entry(k * 100 / n).or_default() += x }
            // the last few on their own
            let last = n - n.div_ceil(1000);
            let few: f64 = want[last..].iter().sum();
            *groups.get_mut(&99).unwrap() -= few;
            groups.insert(100, few);
            let mut beat = 0;
            if let Err((j, g2, p2)) = draws::free_agrees(&groups, if n > 20_000 { 1 << 16 } else { 1 << 19 }, || {
                beat += 1;
                if beat % 256 == 0 { ctx.beat() }
                match pick() { Ok(k) if k >= last => 100, Ok(k) => k * 100 / n, Err(_) => usize::MAX }
            }) {
                return fail(input, format!("alternative {k} is picked by {g} of {m} equally spaced words instead of {here:.1} (on a pseudo-random stream the {j}th hundredth of the alternatives got {g2:.6} instead of {p2:.6})"));
            }
        }
        ctx.done(hash(&(n, kind)), n as u64);
        Ok(())
    }).chunk(1).patience(120)
}

/// What an alternative is replaced by does not change its chance: empty, long and equal replacements.
fn shapes(tier: Tier) -> Family {
    const CHANCES: [C; 3] = [None, Some(25_000), Some(50_000)];
    const BODIES: [&[usize]; 6] = [&[], &[1], &[0], &[1, 2], &[0, 0, 0], &[2]];
    let s = Seqs::new(CHANCES.len() * BODIES.len(), 2, 3);
    let bits = tier.pick(8, 12);
    Family::new("alternatives of every shape", s.size(), move |i, ctx| {
        let v: Vec<(C, &[usize])> = s.get(i).into_iter().map(|k| (CHANCES[k % 3], BODIES[k / 3])).collect();
        let c: Vec<C> = v.iter().map(|x| x.0).collect();
        if c.iter().flatten().sum::<u32>() > ONE { return Ok(()) }
        let a = Alpha::many("n", 3);
        let word = |b: &[usize]| ProductionString::from(b.iter().map(|k| a.syms[*k]).collect::<Vec<_>>());
        let body = |k: usize| match c[k] { None => ProductionBody::new(word(v[k].1)), Some(x) => ProductionBody::try_with_chance(x as f32 / ONE as f32, word(v[k].1)).expect("chance") };
        let mut p = Production::new(ProductionHead::build(None, a.syms[0], None).unwrap(), body(0));
        for k in 1..c.len() { p.add_body(body(k)) }
        let mut want: BTreeMap<String, f64> = BTreeMap::new();
        for (x, b) in shares(&c).iter().zip(&v) { *want.entry(word(b.1).to_string()).or_default() += x }
        let input = format!("n0 -> {}", v.iter().map(|(c, b)| format!("{} {}", c.map(decimal).unwrap_or_default(), word(b))).collect::<Vec<_>>().join(" | "));
        let sys = System::new();
        oops(sys.add_production(p.clone()), &input)?;
        let start = a.string(&[0]);
        for way in 0..2 {
            let bits = if way == 0 { bits } else { 6 };
            let mut pick = || -> String {
                let r = if way == 0 { quiet(|| p.body().map(|b| b.string().to_string())) } else { quiet(|| sys.derive_once(start.clone()).map(|s| s.to_string())) };
                match r { Ok(Ok(s)) => s, Ok(Err(e)) => format!("failed: {e}"), Err(e) => format!("panicked: {e}") }
            };
            let m = 1u64 << bits;
            let mut got: BTreeMap<String, f64> = BTreeMap::new();
            for w in 0..m { *got.entry(draws::with_words(vec![rng::midpoint(w, m)], &mut pick).0).or_default() += 1.0 / m as f64 }
            ctx.trans(m);
            ctx.validated(1);
            let tol = (4.0 + 2.0 * c.len() as f64) / m as f64;
            match draws::differ(&got, &want) {
                Some((k, g, w)) if (g - w).abs() > tol || (w == 0.0 && g > 0.0) => if let Err((k2, g2, w2)) = draws::free_agrees(&want, 1 << 16, &mut pick) {
                    return fail(input, format!("replacement {k:?} has the share {g:.4} instead of {w:.4} over {m} equally spaced words; on a pseudo-random stream {k2:?} got {g2:.4} instead of {w2:.4}"));
                },
                _ => {}
            }
        }
        ctx.state(hash(&input));
        Ok(())
    })
}

/// One alternative: always taken, whatever its chance.
fn single() -> Family {
    let cs: Vec<C> = std::iter::once(None).chain((1..=200).map(|k| Some(k * 500))).chain([Some(1), Some(99_999)]).collect();
    let n = cs.len() as u64;
    Family::new("a single alternative", n, move |i, ctx| {
        let a = Alpha::many("n", 2);
        let p = production(&a, &cs[i as usize..=i as usize]);
        for w in (0..256).map(|k| rng::midpoint(k, 256)).chain([0, u64::MAX]) {
            let (r, _) = draws::with_words(vec![w; 4], || p.body().map(|b| b.string().to_string()));
            if oops(r, "single")? != "n1" { return fail(text(&cs[i as usize..=i as usize]), "the only alternative was not taken") }
        }
        ctx.done(hash(&i), 258);
        Ok(())
    })
}

/// Tiny chances: only the words at the ends of the range and around the middle decide about them,
/// and there every word of a fine grid is tried.
fn tiny() -> Family {
    // the tiny chance, its place (first, last, in the middle of two halves), and whether the others say theirs
    let v: Vec<(f64, usize, bool)> = [1e-6, 2e-6, 3.3e-6, 1e-5, 1.7e-5, 4e-5, 6e-5, 9e-5, 1.23e-4, 4.9e-4].into_iter().flat_map(|t| (0..3).flat_map(move |p| [(t, p, true), (t, p, false)])).collect();
    let n = v.len() as u64;
    Family::new("tiny chances", n, move |i, ctx| {
        let (t, place, said) = v[i as usize];
        let a = Alpha::many("n", 4);
        let f = t as f32;
        let half = ((1.0 - t) / 2.0) as f32;
        let mut c: Vec<Option<f32>> = if place == 2 { vec![Some(half), Some(f), Some(half)] } else { vec![Some(f), Some((1.0 - t) as f32)] };
        if place == 1 { c.reverse() }
        let at = if place == 0 { 0 } else { 1 };
        if !said { for (k, x) in c.iter_mut().enumerate() { if k != at { *x = None } } }
        let input = format!("{} alternatives with chances {c:?}", c.len());
        let body = |k: usize| { let s = ProductionString::from(a.syms[k + 1]); match c[k] { None => Ok(ProductionBody::new(s)), Some(x) => ProductionBody::try_with_chance(x, s) } };
        let mut p = Production::new(ProductionHead::build(None, a.syms[0], None).unwrap(), oops(body(0), &input)?);
        for k in 1..c.len() { p.add_body(oops(body(k), &input)?) }
        let mut hit = || -> Result<bool, String> { let b = quiet(|| p.body())?.map_err(|e| format!("selection failed: {e}"))?; Ok(b.string().symbols() == &vec![a.syms[at + 1]]) };
        // parts of the range, a hundredth of the tiny chance each
        let parts = (100.0 / t).ceil() as u64;
        let w = 1200;
        let mut got = 0u64;
        for win in [0..w, parts / 2 - w / 2..parts / 2 + w / 2, parts - w..parts] {
            for k in win {
                let word = ((k as u128 * 2 + 1) * (1u128 << 63) / parts as u128) as u64;
                let (r, d) = draws::with_words(vec![word], &mut hit);
                ctx.extra(DRAWS, d);
                got += match r { Ok(h) => h as u64, Err(e) => return fail(&input, e) };
            }
        }
        ctx.trans(3 * w);
        ctx.validated(1);
        // single precision in the sums may move the borders
        let tol = 3.0 + 4e-7 * parts as f64;
        if (got as f64 - 100.0).abs() > tol {
            // found nowhere near the ends and the middle, or otherwise spent: judged on a long pseudo-random stream
            rng::set(rng::Mode::Free);
            let runs = (60.0 / t) as u64;
            let mut n = 0u64;
            for k in 0..runs { n += hit().unwrap_or(false) as u64; if k % 4096 == 0 { ctx.beat() } }
            let sd = 60f64.sqrt();
            if (n as f64 - 60.0).abs() > 6.0 * sd + 60.0 * 2.5e-7 / t { return fail(input, format!("the alternative with the chance {t} is taken by {got} of the words instead of 100 of {parts}; on a pseudo-random stream {n} times instead of 60 in {runs}")) }
        }
        ctx.done(hash(&i), 3 * w);
        Ok(())
    }).chunk(1).patience(200)
}

/// All values of one uniform draw.
fn fine(tier: Tier) -> Family {
    static L: [&[C]; 14] = [&[Some(4), Some(99_996)], &[Some(7), None], &[None, Some(43)], &[Some(12_344), Some(23_457), Some(64_199)], &[Some(3), Some(6), Some(9), None], &[Some(49_994), Some(50_006)], &[Some(33_336), None, Some(33_334)], &[Some(5), Some(5), Some(5), Some(99_985)],
        &[Some(10_000), Some(20_000), Some(30_000), Some(40_000)], &[None, None, None], &[Some(1), None, Some(99_998)],
                           &[Some(99_999), None], &[Some(33_333), Some(33_333), Some(33_333)], &[None, Some(1), None, Some(50_000)]];
    Family::new("finely divided draws", L.len() as u64, move |i, ctx| {
        let c = L[i as usize];
        let a = Alpha::many("n", c.len() + 1);
        let p = production(&a, c);
        let input = text(c);
        judge(c, tier.pick(20, 23), &input, ctx, || { let b = p.body().map_err(|e| e.to_string())?; a.syms[1..].iter().position(|x| *x == b.string()[0]).ok_or("?".into()) })?;
        ctx.state(hash(&i));
        Ok(())
    }).chunk(1)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![lists(tier), short(tier), totals(), many(tier), single(), fine(tier), tiny(), crowds(tier), shapes(tier)] }

pub const PROPERTY: Property = Property {
    id: "C09", level: "model_checking",
    rule: "For each list of chances, the selection is run on every one of 2^6 to 2^23 equally spaced words of the random source, and each alternative's share is compared with its chance. Lists: all over a palette up to the length, all splits of 1 into hundredths and thousandths (and of 0.99 and 1.01), and many equal ones, up to 300,000 (1,000,000); and every two or three alternatives with empty, equal, longer and unchanged replacements. Distinct states are distinct lists.",
    assumptions: &["shares are exact up to the division of the random word and floating-point rounding", "an implementation that spends several words per choice is judged on a pseudo-random stream, within six standard deviations"],
    families,
};
