//! C13: the turtle.
use crate::{bridge::*, engine::*, model::{self, Cmd, P}, util::*};
use rusty_systems::geometry::Path;
use rusty_systems::interpretation::abop::{abop_family, AbopTurtleInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use std::cell::RefCell;
use std::collections::HashSet;

const NAMES: [&str; 8] = ["Forward", "Move", "+", "-", "[", "]", "X", "Q"];

fn points(p: &Path) -> Vec<P> { p.iter().map(|p| (p.x(), p.y())).collect() }

/// Compares what was drawn with the lines the string spells.
pub fn compare(got: Vec<Vec<P>>, want: &(Vec<Vec<P>>, P), tol: f64) -> Result<(), String> {
    let mut got = got;
    if got.len() == want.0.len() + 1 {
        let l = got.last().unwrap();
        if l.len() == 1 && model::near_p(l[0], want.1, tol) { got.pop(); }
    }
    if got.len() != want.0.len() { return Err(format!("drew {} paths instead of {} lines: {:?}", got.len(), want.0.len(), got.iter().take(6).collect::<Vec<_>>())) }
    for (k, (g, w)) in got.iter().zip(&want.0).enumerate() {
        if g.len() != w.len() { return Err(format!("line {k} has {} points instead of {}", g.len(), w.len())) }
        for (i, (a, b)) in g.iter().zip(w).enumerate() { if !model::near_p(*a, *b, tol) { return Err(format!("line {k}: point {i} is {a:?} instead of {b:?}")) } }
    }
    Ok(())
}

struct Case1<'a> { names: &'a [&'a str], delta: f32 }

fn check<S: SymbolStore>(store: &S, has: &dyn Fn(&str) -> bool, c: &Case1, which: &str) -> Case {
    let input = || { let t = c.names.join(" "); format!("{} with angle {} and {which}", show(&t), c.delta) };
    let cmds: Vec<Cmd> = c.names.iter().map(|n| if has(n) { model::cmd(n) } else { Cmd::Other }).collect();
    let want = model::turtle(&cmds, c.delta as f64);
    let s = ProductionString::from(c.names.iter().map(|n| Symbol::build(n).unwrap()).collect::<Vec<_>>());
    let t = AbopTurtleInterpretation::new(3, c.delta);
    let got = calm(input, || t.interpret(store, &s))?;
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(_), None) => fail(input(), "a ] without a [ was not reported"),
        (Err(e), Some(_)) => fail(input(), format!("failed: {e}")),
        (Ok(p), Some(w)) => compare(p.iter().map(points).collect(), &w, 1e-7 * (1.0 + c.names.len() as f64)).or_else(|e| fail(input(), e)),
    }
}

fn full() -> System { AbopTurtleInterpretation::system().expect("turtle system") }

fn commands(tier: Tier) -> Family {
    let s = Seqs::new(7, 0, tier.pick(6, 8));
    Family::new("every command sequence", s.size(), move |i, ctx| {
        let v: Vec<&str> = s.get(i).into_iter().map(|k| NAMES[k]).collect();
        let sys = full();
        let deltas: &[f32] = if v.len() <= 5 { &[90.0, 22.5, 0.0, -30.0, 180.0, 1e-3] } else { &[90.0, 25.7] };
        for d in deltas { check(&sys, &|_| true, &Case1 { names: &v, delta: *d }, "all symbols known")?; }
        ctx.done(hash(&v), deltas.len() as u64);
        ctx.sample(|| v.join(" "));
        Ok(())
    })
}

/// Stores that know only some of the turtle's symbols.
fn partial(tier: Tier) -> Family {
    let s = Seqs::new(7, 0, tier.pick(4, 5));
    Family::new("every command sequence with every set of known symbols", s.size() * 64, move |i, ctx| {
        let v: Vec<&str> = s.get(i / 64).into_iter().map(|k| NAMES[k]).collect();
        let mask = i % 64;
        let has = |n: &str| NAMES[..6].iter().position(|x| *x == n).is_none_or(|k| mask >> k & 1 == 1);
        let which = format!("only {:?} known", NAMES[..6].iter().filter(|n| has(n)).collect::<Vec<_>>());
        let c = Case1 { names: &v, delta: 45.0 };
        if i % 2 == 0 {
            let st = System::new();
            for n in &NAMES[..6] { if has(n) { oops(st.add_symbol(*n), &which)?; } }
            check(&st, &has, &c, &which)?;
        } else {
            let st: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
            for n in &NAMES[..6] { if has(n) { oops(st.add_symbol(*n), &which)?; } }
            check(&st, &has, &c, &which)?;
        }
        ctx.done(hash(&(v, mask)), 1);
        Ok(())
    })
}

fn angles() -> Family {
    static V: [&[&str]; 4] = [&["Forward", "+", "Forward", "-", "-", "Forward"], &["[", "+", "Forward", "]", "-", "Forward"], &["+", "+", "+", "Move", "Forward"], &["-", "Move", "[", "-", "Forward", "Forward", "]", "+", "Forward"]];
    Family::new("every angle in half degrees, and extreme ones", 1441 + 24, |i, ctx| {
        let d = match i { 0..=1440 => (i as f32 - 720.0) / 2.0, k => { let e = (k - 1441) as i32; (if e % 2 == 0 { 1.0 } else { -1.0 }) * 1.5 * 10f32.powi(e / 2 - 7) } };
        let sys = full();
        for v in V { check(&sys, &|_| true, &Case1 { names: v, delta: d }, "all symbols known")?; }
        ctx.done(hash(&i), 4);
        Ok(())
    })
}

fn long(tier: Tier) -> Family {
    let lens = lengths(tier.pick(300, 1000), tier.pick(1 << 16, 1 << 20));
    let n = lens.len() as u64 * 8;
    Family::new("long strings", n, move |i, ctx| {
        let (l, kind) = (lens[i as usize / 8], i % 8);
        let rep = |s: &str, n: usize| std::iter::repeat_n(NAMES.iter().copied().find(|x| *x == s).unwrap(), n).collect::<Vec<&'static str>>();
        let v: Vec<&str> = match kind {
            0 => rep("Forward", l),
            1 => [rep("[", l), vec!["+", "Forward"], rep("]", l), vec!["Forward"]].concat(),
            2 => [rep("[", l), rep("]", l + 1)].concat(),
            3 => (0..l).flat_map(|k| ["[", "+", "Forward", "]", if k % 3 == 0 { "Move" } else { "Forward" }]).collect(),
            4 => [rep("+", l), vec!["Forward"], rep("-", l), vec!["Forward"]].concat(),
            5 => (0..l).map(|k| NAMES[[0, 2, 0, 3, 6, 1, 0, 3][k % 8]]).collect(),
            // every level of the stack holds another place
            6 => (0..l).flat_map(|k| ["[", if k % 2 == 0 { "+" } else { "-" }, "Forward"]).chain((0..l).flat_map(|_| ["]", "Forward"])).collect(),
            _ => (0..l).map(|k| if k % 2 == 0 { "Move" } else { "Q" }).collect(),
        };
        let sys = full();
        check(&sys, &|_| true, &Case1 { names: &v, delta: if kind == 4 { 1.0 } else { 33.0 } }, "all symbols known")?;
        ctx.done(hash(&i), 1);
        ctx.beat();
        Ok(())
    })
}

/// Derived strings, the default settings, and the interpretation's own system.
fn derived() -> Family {
    Family::new("derived strings, settings, system", 60, |i, ctx| {
        let n = (i % 6) as usize;
        let t = AbopTurtleInterpretation::new(n, 22.5 + i as f32);
        let input = format!("case {i}");
        if t.n() != n || t.run_settings().max_iterations != n || t.delta() != 22.5 + i as f32 { return fail(input, "settings are not kept") }
        let sys = full();
        for (k, f) in [("[", true), ("]", true), ("+", true), ("-", true), ("Forward", true), ("Move", true), ("X", true), ("Q", false)] { if sys.get_symbol(k).is_some() != f { return fail(k, format!("symbol of the turtle's system: should be {f}")) } }
        if sys.symbol_len() != abop_family().symbols().count() || sys.production_len() != 0 { return fail(input, "the turtle's system has other symbols or rules") }
        let rules: &[&str] = match i / 12 {
            0 => &["X -> Forward [ + X ] - X", "Forward -> Forward Forward"],
            1 => &["X -> Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X", "Forward -> Forward Forward"],
            2 => &["Forward -> Forward + Forward - Forward"],
            3 => &["X -> X X", "Forward < X -> Move", "X -> [ Forward ]"],
            _ => &["X -> Y", "Y -> Forward Move Forward X"],
        };
        for r in rules { oops(rusty_systems::productions::ProductionStore::add_production(&sys, *r), r)?; }
        let s = oops(sys.derive("X Forward X".parse().unwrap(), t.run_settings()), &input)?;
        let names: Vec<String> = s.iter().map(|s| s.to_string()).collect();
        let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        check(&sys, &|_| true, &Case1 { names: &refs, delta: t.delta() }, "a derived string")?;
        let d = oops(AbopTurtleInterpretation::default_interpret(&sys, &s), &input)?;
        let cmds: Vec<Cmd> = refs.iter().map(|n| model::cmd(n)).collect();
        if let Some(w) = model::turtle(&cmds, 22.5) { compare(d.iter().map(points).collect(), &w, 1e-4).or_else(|e| fail(input, format!("default: {e}")))?; }
        ctx.done(hash(&(i, names)), 3);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![commands(tier), partial(tier), angles(), long(tier), derived()] }

pub const PROPERTY: Property = Property {
    id: "C13", level: "model_checking",
    rule: "Every command sequence up to the length, with several angles and with every set of known symbols, and sweeps of the angle and of the length, drawn and compared line by line with a reference turtle. Distinct states are distinct (sequence, known symbols).",
    assumptions: &["coordinates are compared up to rounding that grows with the length of the string", "angles are finite"],
    families,
};
