//! C15: plant files.
use crate::{bridge::*, engine::*, model, util::*};
use crate::props::{c08::MRule, c19};
use rusty_systems::interpretation::abop::{parser::parse, AbopTurtleInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
use std::collections::BTreeSet;

pub const TURTLE: [&str; 7] = ["[", "]", "+", "-", "Forward", "Move", "X"];

#[derive(Clone, Debug, PartialEq)]
pub enum Means { Nothing, N(usize), Delta(f32), Initial(Result<Vec<String>, ()>), Rule(MRule), Bad, Any }

/// What a plant text must give.
#[derive(Clone, Debug)]
pub struct Plant { pub n: usize, pub delta: f32, pub initial: Vec<String>, pub rules: Vec<MRule> }
#[derive(Clone, Debug)]
pub enum Want { Plant(Plant), Error, Any }

pub fn meaning<'a>(lines: impl Iterator<Item = &'a Means>) -> Want {
    let (mut n, mut delta, mut initial, mut rules) = (2, 5.0f32, None, vec![]);
    let (mut bad, mut any) = (false, false);
    for l in lines {
        match l {
            Means::Nothing => {}
            Means::N(v) => n = *v,
            Means::Delta(v) => delta = *v,
            // whether an axiom that is replaced later must be well-formed is left open
            Means::Initial(i) => { if initial == Some(Err(())) { any = true } initial = Some(i.clone()) }
            Means::Rule(r) => rules.push(r.clone()),
            Means::Bad => bad = true,
            Means::Any => any = true,
        }
    }
    if any && !bad { return Want::Any }
    match initial {
        Some(Ok(initial)) if !bad && !rules.is_empty() => Want::Plant(Plant { n, delta, initial, rules }),
        _ => Want::Error,
    }
}

/// Rules merged by head.
pub fn merged(rules: &[MRule]) -> Vec<MRule> {
    let mut v: Vec<MRule> = vec![];
    for r in rules {
        match v.iter_mut().find(|x| x.left == r.left && x.target == r.target && x.right == r.right) {
            Some(x) => x.bodies.extend(r.bodies.iter().cloned()),
            None => v.push(r.clone()),
        }
    }
    v
}

/// One step with the rules of a plant, when each has one alternative.
pub fn step(rules: &[MRule], s: &[String]) -> Vec<String> {
    let mut out = vec![];
    for i in 0..s.len() {
        match rules.iter().find(|r| model::matches(&r.left, &r.target, &r.right, s, i)) {
            Some(r) => out.extend(r.bodies[0].1.iter().cloned()),
            None => out.push(s[i].clone()),
        }
    }
    out
}

fn string(v: &[String]) -> ProductionString { ProductionString::from(v.iter().map(|n| Symbol::build(n).unwrap()).collect::<Vec<_>>()) }
fn names(s: &ProductionString) -> Vec<String> { s.iter().map(|s| s.to_string()).collect() }

pub fn judge(got: Result<(AbopTurtleInterpretation, System, ProductionString), Error>, want: &Want, input: &dyn Fn() -> String) -> Case {
    let (got, w) = match (got, want) {
        (_, Want::Any) | (Err(_), Want::Error) => return Ok(()),
        (Ok(_), Want::Error) => return fail(input(), "was accepted"),
        (Err(e), Want::Plant(_)) => return fail(input(), format!("was rejected: {e}")),
        (Ok(g), Want::Plant(p)) => (g, p),
    };
    let (it, sys, axiom) = got;
    if it.n() != w.n { return fail(input(), format!("the iteration count is {} instead of {}", it.n(), w.n)) }
    if it.delta() != w.delta { return fail(input(), format!("the angle is {} instead of {}", it.delta(), w.delta)) }
    if names(&axiom) != w.initial { return fail(input(), format!("the initial string is {} instead of {:?}", show(&axiom.to_string()), w.initial)) }
    let rules = merged(&w.rules);
    let mut syms: BTreeSet<String> = TURTLE.iter().map(|s| s.to_string()).collect();
    for r in &rules { syms.extend(r.left.iter().chain([&r.target]).chain(&r.right).chain(r.bodies.iter().flat_map(|b| &b.1)).cloned()) }
    if sys.symbol_len() != syms.len() || sys.production_len() != rules.len() { return fail(input(), format!("the system has {} symbols and {} rules instead of {} and {}", sys.symbol_len(), sys.production_len(), syms.len(), rules.len())) }
    for s in &syms { if sys.get_symbol(s).is_none() { return fail(input(), format!("the system lacks {}", show(s))) } }
    // the order of the rules shows where several match
    if rules.iter().all(|r| r.bodies.len() == 1) {
        for r in &rules {
            let mut probe: Vec<String> = [r.left.clone(), vec![r.target.clone()], r.right.clone()].concat();
            for _ in 0..2 {
                let want = step(&rules, &probe);
                let got = oops(sys.derive_once(string(&probe)), &input())?;
                if names(&got) != want { return fail(input(), format!("{} derives {} instead of {}", show(&probe.join(" ")), show(&got.to_string()), show(&want.join(" ")))) }
                probe = [w.initial.clone(), probe.clone(), probe].concat();
            }
        }
    }
    // the alternatives show in what adding another gives back
    for r in &rules {
        let mut r = r.clone();
        let mut extra = r.clone();
        extra.bodies = vec![(None, vec!["probe".into()])];
        r.bodies.extend(extra.bodies.iter().cloned());
        let got = oops(sys.add_production(extra.build()), &input())?;
        r.is(&got).or_else(|e| fail(input(), e))?;
    }
    if sys.production_len() != rules.len() { return fail(input(), "the rules have other heads than stated") }
    Ok(())
}

pub fn check(text: &str, want: &Want) -> Case {
    let input = || show(text);
    judge(calm(input, || parse(text))?, want, &input)
}

fn ini(s: &str) -> Means { Means::Initial(model::prod_string(s)) }
fn rule(l: &str, t: &str, r: &str, c: Option<f32>, b: &str) -> Means {
    let w = |s: &str| s.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
    Means::Rule(MRule { left: w(l), target: t.into(), right: w(r), bodies: vec![(c, w(b))] })
}

fn vocabulary() -> Vec<(&'static str, Means)> {
    use Means::*;
    vec![
        ("", Nothing), ("   ", Nothing), ("# n = 9", Nothing), ("\t#", Nothing), ("#initial: Q", Nothing), ("# X -> Q", Nothing), ("## #", Nothing),
        ("n = 3", N(3)), ("n=0", N(0)), ("N = 12", N(12)), ("\tn  =  7 # n = 8", N(7)),
        ("delta = 22.5", Delta(22.5)), ("d=90", Delta(90.0)), ("D = -15", Delta(-15.0)), ("∂ = 1.25e1#", Delta(12.5)), ("  delta=0  ", Delta(0.0)),
        ("initial: X", ini("X")), ("initial:Forward [ + X ] - X", ini("Forward [ + X ] - X")), ("  initial:   A B-C # D", ini("A B-C")), ("initial: A; B", ini("A; B")), ("initial: X:Y initial: Z", ini("X:Y initial: Z")), ("initial: <", ini("<")), ("initial: A -> B", ini("A -> B")),
        ("X -> Forward [ + X ] - X", rule("", "X", "", None, "Forward [ + X ] - X")), ("Forward -> Forward Forward # twice", rule("", "Forward", "", None, "Forward Forward")),
        ("A < X > B C -> X D", rule("A", "X", "B C", None, "X D")), ("X -> 0.5 A", rule("", "X", "", Some(0.5), "A")), ("  X->0.25 B", rule("", "X", "", Some(0.25), "B")),
        ("A ->", rule("", "A", "", None, "")), ("A->B#C", rule("", "A", "", None, "B")), ("A < X -> initial:", rule("A", "X", "", None, "initial:")), ("n -> delta", rule("", "n", "", None, "delta")),
        ("m = 3", Bad), ("n = x", Bad), ("n =", Bad), ("n = 1.5", Bad), ("n = -1", Bad), ("delta = y", Bad), ("delta =", Bad), ("= 3", Bad), ("nn = 3", Bad), ("deltas = 3", Bad), ("n = 3 4", Bad), ("delta = 1,5", Bad),
        ("X", Bad), ("-> A", Bad), ("A B -> C", Bad), ("X -> 1.5 A", Bad), ("initial X", Bad), ("A < -> B", Bad), ("n: 3", Bad), ("n 3", Bad),
        ("initial:", Any), ("initial: a = b", Any), ("X -> A = B", Any), ("n == 3", Any), ("X -> -> A", Any), ("initial : X", Any), ("Initial: X", Any), ("DELTA = 3", Any),
    ]
}

const ENDINGS: [(&str, &str); 4] = [("\n", "\n"), ("\n", ""), ("\r\n", "\r\n"), ("\r\n", "")];

fn sequences(tier: Tier) -> Family {
    let v = vocabulary();
    let s = Seqs::new(v.len(), 0, tier.pick(3, 4));
    Family::new("every sequence of lines", s.size(), move |i, ctx| {
        let k = s.get(i);
        let want = meaning(k.iter().map(|k| &v[*k].1));
        let lines: Vec<&str> = k.iter().map(|k| v[*k].0).collect();
        for (sep, end) in ENDINGS { check(&format!("{}{}", lines.join(sep), end), &want)?; }
        ctx.done(hash(&k), 4);
        ctx.sample(|| show(&lines.join("\n")));
        Ok(())
    }).chunk(20_000)
}

fn deeper(tier: Tier) -> Family {
    const KEEP: [&str; 11] = ["", "# n = 9", "n = 3", "n=0", "delta = 22.5", "D = -15", "initial: X", "  initial:   A B-C # D", "X -> 0.5 A", "A < X > B C -> X D", "A->B#C"];
    let mut v: Vec<(&str, Means)> = vocabulary().into_iter().filter(|l| KEEP.contains(&l.0)).collect();
    v.push(("A < X -> Y", rule("A", "X", "", None, "Y")));
    let s = Seqs::new(v.len(), tier.pick(4, 5), tier.pick(5, 6));
    Family::new("every longer sequence of good lines", s.size(), move |i, ctx| {
        let k = s.get(i);
        let want = meaning(k.iter().map(|k| &v[*k].1));
        let lines: Vec<&str> = k.iter().map(|k| v[*k].0).collect();
        let (sep, end) = ENDINGS[(i % 4) as usize];
        check(&format!("{}{}", lines.join(sep), end), &want)?;
        ctx.done(hash(&k), 1);
        Ok(())
    }).chunk(20_000)
}

fn numbers(tier: Tier) -> Family {
    let top = tier.pick(3000u64, 30_000);
    Family::new("every iteration count and angle", top + 2 * 8 * 720 + 300, move |i, ctx| {
        let file = |l: &str| format!("initial: X\n{l}\nX -> A\n");
        let with = |m: Means| meaning([ini("X"), m, rule("", "X", "", None, "A")].iter());
        if i < top {
            check(&file(&format!("n = {i}")), &with(Means::N(i as usize)))?;
            for lead in ["0", "00", "+"] { let w = if lead == "+" { Want::Any } else { with(Means::N(i as usize)) }; check(&file(&format!("n={lead}{i}")), &w)?; }
            for bad in [format!("-{}", i + 1), format!("{i}.0"), format!("{i}x"), format!("x{i}"), format!("{i} {i}"), format!("{i}e0"), format!("{i}_0"), format!("{i},"), format!("0x{i}")] { check(&file(&format!("n = {bad}")), &Want::Error)?; }
        } else if i < top + 2 * 8 * 720 {
            let q = (i - top) as i64 - 8 * 720;
            let deg = q as f32 / 8.0;
            for n in ["d", "D", "delta", "∂"] { check(&file(&format!("{n} = {deg}")), &with(Means::Delta(deg)))?; }
            check(&file(&format!("delta={deg:.3}")), &with(Means::Delta(deg)))?;
            check(&file(&format!("delta={:e}", deg)), &with(Means::Delta(deg)))?;
            for bad in [format!("{deg}°"), format!("--{}", deg.abs()), format!("{deg} {deg}"), format!("{deg:.1}.1"), format!("{deg:.1},1"), format!("{deg}f"), format!("1e{deg:.1}")] { check(&file(&format!("delta = {bad}")), &Want::Error)?; }
        } else {
            let p = i - top - 2 * 8 * 720;
            let (bit, d) = ((p / 3 % 100) as u32, (p % 3) as i128 - 1);
            let v = (1i128 << bit.min(99)) + d;
            let w = if v >= 0 && v <= u64::MAX as i128 { with(Means::N(v as usize)) } else { Want::Error };
            check(&file(&format!("n = {v}")), &w)?;
            check(&file(&format!("delta = {v}")), &with(Means::Delta(v as f64 as f32)))?;
        }
        ctx.done(hash(&i), 12);
        Ok(())
    })
}

/// An angle is a finite number: others are errors, wherever they stand, and the largest ones are not.
fn angles() -> Family {
    let mut bad: Vec<String> = ["nan", "inf", "infinity"].iter().flat_map(|w| ["", "+", "-"].map(|s| [format!("{s}{w}"), format!("{s}{}", w.to_uppercase()), format!("{s}{}{}", w[..1].to_uppercase(), &w[1..])])).flatten().collect();
    for s in ["", "+", "-"] { for n in ["1e39", "3.5e38", "4E38", "1e400", "1e99999", "3.4028236e38", "340282366920938463463374607431768211456"] { bad.push(format!("{s}{n}")) } bad.push(format!("{s}{}", "9".repeat(60))); bad.push(format!("{s}1{}.0", "0".repeat(45))) }
    let good = ["3.4028234e38", "-3.4028234e38", "1e38", "-1e38", "340282346638528859811704183484516925440", "1e-45", "1e-60", "-1e-400", "0e99", "-0"];
    let n = (bad.len() + good.len()) as u64;
    Family::new("angles that are no finite numbers, and the largest that are", n * 4 * 5, move |i, ctx| {
        let d = digits(i, &[n, 4, 5]);
        let t = if d[0] < bad.len() { &bad[d[0]] } else { good[d[0] - bad.len()] };
        let means = if d[0] < bad.len() { Means::Bad } else { Means::Delta(t.parse().unwrap_or(0.0)) };
        let name = ["delta", "d", "D", "∂"][d[1]];
        let line = match d[1] { 0 => format!("{name} = {t}"), 1 => format!("  {name}={t}  # c"), 2 => format!("{name}\t=  {t}#"), _ => format!("{name} ={t}") };
        let (other, axiom, rule) = (("delta = 7".to_string(), Means::Delta(7.0)), ("initial: X".to_string(), ini("X")), ("X -> A".to_string(), rule("", "X", "", None, "A")));
        let it = (line, means);
        let v = match d[2] { 0 => vec![it, axiom, rule], 1 => vec![axiom, it, rule], 2 => vec![axiom, rule, it], 3 => vec![other, axiom, it, rule], _ => vec![it, axiom, other, rule] };
        for sep in ["\n", "\r\n"] { check(&v.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join(sep), &meaning(v.iter().map(|l| &l.1)))?; }
        ctx.done(hash(&i), 2);
        Ok(())
    })
}

fn spaces(tier: Tier) -> Family {
    // slots marked with ·
    let lines: Vec<(&str, Means)> = vec![("·n·=·6·", Means::N(6)), ("·delta·=·-7.5·# c", Means::Delta(-7.5)), ("·initial:·X· Y·", ini("X Y")), ("·X ->· A· B·", rule("", "X", "", None, "A B")), ("·A < X· ·-> C·# c", rule("A", "X", "", None, "C")), ("·# X·", Means::Nothing)];
    let fill = ["", " ", "\t", "  ", " \t ", "\t\t\t"];
    let edge = tier.pick(4, 6);
    Family::new("white space everywhere", lines.len() as u64 * 6u64.pow(4) * edge as u64, move |i, ctx| {
        let d = digits(i, &[lines.len() as u64, 6, 6, 6, 6, edge as u64]);
        let mut t = String::new();
        let mut k = 1;
        for c in lines[d[0]].0.chars() { if c == '·' { t += fill[d[k]]; k += 1 } else { t.push(c) } }
        if k <= 4 && d[k..5].iter().any(|x| *x > 0) { return Ok(()) }
        let (before, after) = [("", ""), ("\n\n", "\n\n"), ("\r\n", "\r\n \r\n"), (" \t\n", "\n\t"), ("\u{a0}\n", "\n\u{3000}"), ("\n#\n", "#")][d[5]];
        let all = [ini("A"), rule("", "B", "", None, "Z"), lines[d[0]].1.clone()];
        check(&format!("{before}initial: A\nB -> Z\n{t}{after}"), &meaning(all.iter()))?;
        check(&format!("{before}{t}\ninitial: A\nB -> Z{after}"), &meaning([2, 0, 1].iter().map(|k| &all[*k])))?;
        check(&format!("{before}{t}\r\ninitial: A\r\nB -> Z\r\n{after}"), &meaning([2, 0, 1].iter().map(|k| &all[*k])))?;
        ctx.done(hash(&t), 3);
        Ok(())
    })
}

fn productions() -> Family {
    let n = c19::structured_n();
    Family::new("every pair of structured productions", n * 40, move |i, ctx| {
        let (a, b) = (c19::structured(i / 40), c19::structured((i * 37) % n));
        let m = [ini("X X"), Means::Rule(a.1.clone()), Means::Rule(b.1.clone())];
        check(&format!("initial: X X\n{}\n# between\n{}\n", a.0, b.0), &meaning(m.iter()))?;
        ctx.done(hash(&i), 1);
        Ok(())
    })
}

fn long(tier: Tier) -> Family {
    let l = lengths(tier.pick(200, 600), tier.pick(1 << 11, 1 << 13));
    Family::new("files of every length, each setting at each place", l.len() as u64 * 4, move |i, ctx| {
        let (n, kind) = (l[i as usize / 4], i % 4);
        let filler = |k: usize| match kind {
            0 => (String::new(), Means::Nothing),
            1 => (format!("# line {k} -> n = 4"), Means::Nothing),
            2 => (format!("r{k} -> r{} X", k + 1), rule("", &format!("r{k}"), "", None, &format!("r{} X", k + 1))),
            _ => (if k % 2 == 0 { format!("n = {k}") } else { format!("delta = {k}") }, if k % 2 == 0 { Means::N(k) } else { Means::Delta(k as f32) }),
        };
        if kind == 2 && n > 700 { return Ok(()) }
        let base: Vec<(String, Means)> = (0..n).map(filler).collect();
        let extra = [("initial: X".to_string(), ini("X")), ("X -> X Y".to_string(), rule("", "X", "", None, "X Y")), ("n = 99999".to_string(), Means::N(99999)), ("initial: Y".to_string(), ini("Y")), ("bad = 1".to_string(), Means::Bad)];
        let places: Vec<usize> = if n <= 12 { (0..=n).collect() } else { vec![0, n / 2, n] };
        for p in &places { for q in &places { for e in 2..extra.len() {
            let mut v = base.clone();
            v.insert(*p, extra[e].clone());
            v.insert(*q, extra[1].clone());
            v.insert(*p, extra[0].clone());
            check(&v.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join("\n"), &meaning(v.iter().map(|l| &l.1)))?;
        } } }
        ctx.done(hash(&i), 3 * (places.len() * places.len()) as u64);
        ctx.beat();
        Ok(())
    }).patience(60).chunk(4)
}

fn axioms(tier: Tier) -> Family {
    const T: [&str; 12] = ["X", "A", " ", "-", "+", "[", ";", "->", ">", "é", "initial:", "0.5"];
    let s = Seqs::new(T.len(), 1, tier.pick(4, 5));
    Family::new("every initial string", s.size(), move |i, ctx| {
        let t: String = s.get(i).iter().map(|k| T[*k]).collect();
        let w = if t.trim().is_empty() { Want::Any } else { meaning([ini(&t), rule("", "X", "", None, "A")].iter()) };
        check(&format!("initial:{t}\nX -> A"), &w)?;
        check(&format!("X -> A\n initial: {t} # {t}"), &w)?;
        ctx.done(hash(&t), 2);
        Ok(())
    })
}

/// Any character as a symbol, at the ends of lines and at their starts.
fn marks() -> Family {
    Family::new("every Unicode character as a symbol, at the ends of lines", 0x110000, |i, ctx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        if c.is_whitespace() || matches!(c, '#' | '=' | '<' | '>') { return Ok(()) }
        let c = c.to_string();
        let lines: [(String, Means); 10] = [
            ("n = 4".into(), Means::N(4)),
            (format!("X -> X {c}"), rule("", "X", "", None, &format!("X {c}"))),
            (format!("{c} -> X {c}"), rule("", &c, "", None, &format!("X {c}"))),
            (format!("{c}X -> AB{c}"), rule("", &format!("{c}X"), "", None, &format!("AB{c}"))),
            (format!("A{c} < Y > {c} -> {c}{c}"), rule(&format!("A{c}"), "Y", &c, None, &format!("{c}{c}"))),
            (format!("initial: X {c}"), ini(&format!("X {c}"))),
            ("d = 7".into(), Means::Delta(7.0)),
            (format!("Z -> {c}Q"), rule("", "Z", "", None, &format!("{c}Q"))),
            (format!("# {c}"), Means::Nothing),
            ("Q -> R".into(), rule("", "Q", "", None, "R")),
        ];
        // a number is a chance, and an arrow may come about
        if c == "-" || c.parse::<f32>().is_ok() { return Ok(()) }
        let lead = format!("{c} -> X {c}");
        for (k, (sep, end)) in ENDINGS.iter().enumerate() {
            if i > 0x3000 && k > 0 { break }
            check(&format!("{}{end}", lines.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join(sep)), &meaning(lines.iter().map(|l| &l.1)))?;
            // the other way round: the character starts the file and ends it
            {
                let mut v: Vec<&(String, Means)> = lines.iter().rev().collect();
                v.retain(|l| l.0 != lead);
                v.insert(0, &lines[2]);
                v.push(&lines[5]);
                check(&v.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join(sep), &meaning(v.iter().map(|l| &l.1)))?;
            }
        }
        ctx.done(i, 8);
        Ok(())
    })
}

/// What a comment says does not matter, on whatever line.
fn comments(tier: Tier) -> Family {
    const W: [&str; 24] = ["c", "f00", "FF0000", "123456", "0", "0.5", "->", "=", "initial:", "n = 4", "!", "#", "[", "]", "\"", "\\", "é🌿", "//", "include", "-", "<", ">", ";", "X -> Y"];
    let lines = || -> Vec<(&'static str, Means)> { vec![("", Means::Nothing), ("n = 3", Means::N(3)), ("delta = 22.5", Means::Delta(22.5)), ("initial: X [ A ] B", ini("X [ A ] B")), ("initial:X", ini("X")), ("X -> A [ B ]", rule("", "X", "", None, "A [ B ]")), ("A < X > B -> X Y", rule("A", "X", "B", None, "X Y")), ("X -> 0.5 A", rule("", "X", "", Some(0.5), "A")), ("A ->", rule("", "A", "", None, "")), ("m = 3", Means::Bad), ("X", Means::Bad)] };
    let n = lines().len();
    let s = Seqs::new(W.len(), 1, tier.pick(2, 3));
    Family::new("every comment of a few words on every kind of line", s.size() * n as u64 * 2, move |i, ctx| {
        let d = digits(i, &[s.size(), n as u64, 2]);
        let words: Vec<&str> = s.get(d[0] as u64).into_iter().map(|k| W[k]).collect();
        let lines = lines();
        let l = &lines[d[1]];
        let comment = words.join(if d[2] == 0 { "" } else { " " });
        for (a, b) in [("", ""), (" ", ""), ("\t", " "), ("  ", "\t")] {
            let it = (format!("{}{a}#{b}{comment}", l.0), l.1.clone());
            let rest = [("initial: Q".to_string(), ini("Q")), ("Q -> R".to_string(), rule("", "Q", "", None, "R"))];
            for v in [vec![&it, &rest[0], &rest[1]], vec![&rest[0], &it, &rest[1]], vec![&rest[1], &rest[0], &it]] {
                check(&v.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join("\n"), &meaning(v.iter().map(|l| &l.1)))?;
            }
        }
        ctx.done(hash(&i), 12);
        Ok(())
    })
}

/// Only a line feed ends a line, and with it a comment.
fn line_ends() -> Family {
    Family::new("every Unicode character in a comment", 0x110000, |i, ctx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        // a lone carriage return is left open
        if c == '\n' || c == '\r' { return Ok(()) }
        let lines = [(format!("n = 3 # 3{c}n = 4{c}delta = 7{c}initial: Q{c}X -> Q{c}oops"), Means::N(3)), (format!("#{c}{c}n = 5"), Means::Nothing), ("initial: X".into(), ini("X")), (format!("X -> X Y#{c}"), rule("", "X", "", None, "X Y")), (format!("initial: X Y # {c}initial: Y"), ini("X Y"))];
        for sep in ["\n", "\r\n"] { check(&lines.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join(sep), &meaning(lines.iter().map(|l| &l.1)))? }
        // what is white space but no line feed separates the symbols of an initial string
        if c.is_whitespace() {
            let all = [ini("X Y n"), rule("", "X", "", None, "Y"), Means::N(4)];
            check(&format!("initial: X{c}Y{c}{c}n{c}\nX -> Y{c}\n{c}n{c}={c}4{c}"), &meaning(all.iter()))?;
        }
        ctx.done(i, 2);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![sequences(tier), deeper(tier), axioms(tier), marks(), comments(tier), line_ends(), spaces(tier), productions(), numbers(tier), angles(), long(tier)] }

pub const PROPERTY: Property = Property {
    id: "C15", level: "model_checking",
    rule: "Every sequence of line kinds up to the depth in every line-ending style, every initial string of the token alphabet, white space in every slot, every number of the ranges, files of every length of the bounds; iteration count, angle, initial string, rules (order, contexts, alternatives) and symbols are compared with an independent reading of the lines. Distinct states are distinct files.",
    assumptions: &["no other family is registered as ABOP", "left open (only checked not to panic): an empty initial string, = inside a rule or initial string, a malformed initial string that a later one replaces, a lone carriage return"],
    families,
};
