//! C25: interpretations made of other interpretations.
use crate::{bridge::*, engine::*, explore::*, model::{self, Cmd, P}, util::*};
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::{Interpretation, NullInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

/// What the inner interpretation does with the call.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Answer { Paths(usize), Refuse(String), Panic }
const LONG: usize = 1 << 30;
const ANY: usize = 1 << 40;
fn drawing(k: usize) -> Vec<Vec<P>> {
    match k {
        ANY.. => {
            // every cut of every short sequence of three points
            let pts = [(0.0, 0.0), (0.0, 3.0), (-4.0, 1.0)];
            let mut v = vec![vec![]];
            for c in Seqs::new(4, 0, 8).get((k - ANY) as u64) { if c == 3 { v.push(vec![]) } else { v.last_mut().unwrap().push(pts[c]) } }
            v
        }
        LONG.. => (0..k - LONG).map(|j| ((j * j % 101) as f64, (j % 103) as f64)).map(|p| vec![p]).reduce(|mut a, p| { a.extend(p); a }).into_iter().collect(),
        0 => vec![],
        1 => vec![vec![(0.0, 0.0), (3.0, 7.0)]],
        2 => vec![vec![(1.0, 1.0)], vec![(1.0, 1.0)]],
        3 => vec![vec![(0.0, 0.0), (0.0, 5.0), (0.0, 5.0)], vec![], vec![(2.0, -2.0), (4.0, 0.0)], vec![(2.0, -2.0), (4.0, 0.0)]],
        _ => (0..k).map(|j| vec![(j as f64, 0.5), (0.0, -(j as f64))]).collect(),
    }
}

/// An interpretation that notes what it is given. Its store answers are noted, too.
#[derive(Clone, Debug)]
struct Probe { answer: Answer, n: usize, log: Arc<Mutex<Vec<(Vec<Symbol>, Vec<String>)>>> }
impl Probe { fn new(answer: Answer, n: usize) -> Probe { Probe { answer, n, log: Default::default() } } }
static DEFAULTS: Mutex<usize> = Mutex::new(0);
impl Default for Probe { fn default() -> Self { *DEFAULTS.lock().unwrap() += 1; Probe::new(Answer::Paths(3), 77) } }
impl Interpretation for Probe {
    type Item = Vec<Path>;
    fn system() -> Result<System, Error> { let s = System::new(); s.add_symbol("probe")?; s.add_production("probe -> probe mark")?; Ok(s) }
    fn interpret<S: SymbolStore>(&self, st: &S, s: &ProductionString) -> Result<Vec<Path>, Error> {
        let mut seen: Vec<String> = ["s0", "s1", "probe", "late"].iter().map(|n| format!("{n}:{}", st.get_symbol(n).map(|x| x.to_string() == *n).unwrap_or(false))).collect();
        seen.push(format!("added:{}", st.add_symbol("late").is_ok()));
        self.log.lock().unwrap().push((s.iter().copied().collect(), seen));
        match &self.answer {
            Answer::Paths(k) => Ok(drawing(*k).into_iter().map(|p| p.into_iter().map(|p| Point::new(p.0, p.1)).collect()).collect()),
            Answer::Refuse(m) => Err(Error::execution(m)),
            Answer::Panic => panic!("the inner one gives up"),
        }
    }
    fn run_settings(&self) -> RunSettings { self.n.into() }
}

/// One whose alphabet cannot be had.
#[derive(Clone, Debug, Default)]
struct NoSystem;
impl Interpretation for NoSystem {
    type Item = Vec<Path>;
    fn system() -> Result<System, Error> { Err(Error::general("there is no alphabet")) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> Result<Vec<Path>, Error> { Ok(vec![]) }
}

/// A caller's store: notes the calls, knows s0 only, and takes nothing.
#[derive(Default)]
struct Own { log: RefCell<Vec<String>> }
impl SymbolStore for Own {
    fn add_symbol<S>(&self, s: S) -> Result<Symbol, Error> where S: TryInto<Symbol>, S::Error: Into<Error> {
        let s = s.try_into().map_err(Into::into)?;
        self.log.borrow_mut().push(format!("add {s}"));
        Err(Error::general("no"))
    }
    fn get_symbol(&self, n: &str) -> Option<Symbol> { self.log.borrow_mut().push(format!("get {n}")); if n == "s0" { Symbol::build(n).ok() } else { None } }
}

/// Interprets once and judges everything about it. `late`: whether the store has been added to before.
fn once<S: SymbolStore>(i: &SvgPathInterpretation<Probe>, p: &Probe, st: &S, seen: &[bool; 5], s: &ProductionString, w: usize, h: usize, input: &dyn Fn() -> String) -> Case {
    let before = p.log.lock().unwrap().len();
    let own: Vec<Symbol> = s.iter().copied().collect();
    let got = quiet(|| i.interpret(st, s));
    if own != s.iter().copied().collect::<Vec<_>>() { return fail(input(), "the string was changed") }
    let log = p.log.lock().unwrap();
    if log.len() != before + 1 { return fail(input(), format!("the inner interpretation was called {} times", log.len() - before)) }
    let (string, answers) = log.last().unwrap();
    if *string != own { return fail(input(), format!("the inner interpretation was given the string {:?} instead of {:?}", show(&ProductionString::from(string.clone()).to_string()), show(&s.to_string()))) }
    let want: Vec<String> = ["s0", "s1", "probe", "late", "added"].iter().zip(seen).map(|(n, b)| format!("{n}:{b}")).collect();
    if *answers != want { return fail(input(), format!("the inner interpretation's store answered {answers:?} instead of {want:?}")) }
    match (&p.answer, got) {
        (Answer::Paths(k), Ok(Ok(svg))) => {
            let doc = calm(input, || svg.to_svg())?;
            model::check_svg(&doc, &drawing(*k), None, w, h, 1e-6).or_else(|e| fail(input(), format!("{e}; document {}", show(&doc))))
        }
        (Answer::Refuse(m), Ok(Err(e))) => if e.to_string() != *m { fail(input(), format!("the inner failure {m:?} became {:?}", e.to_string())) } else { Ok(()) },
        (Answer::Panic, Err(m)) if m.starts_with("the inner one gives up") => Ok(()),
        (a, g) => fail(input(), format!("the inner interpretation answered {a:?}, the outer {}", match g { Ok(Ok(s)) => show(&s.to_svg()), Ok(Err(e)) => format!("failed: {e}"), Err(m) => format!("panicked: {m}") })),
    }
}

const SIZES: [(usize, usize); 4] = [(500, 500), (1, 900), (33, 7), (100_000, 2)];
fn answers() -> Vec<Answer> { vec![Answer::Paths(0), Answer::Paths(1), Answer::Paths(2), Answer::Paths(3), Answer::Paths(40), Answer::Refuse("no such plant".into()), Answer::Refuse(String::new()), Answer::Panic] }

fn calls(tier: Tier) -> Family {
    let s = Seqs::new(5, 0, tier.pick(4, 5));
    let a = answers();
    let n = a.len() as u64;
    Family::new("every string, store, canvas and answer of the inner interpretation", s.size() * n, move |i, ctx| {
        let al = Alpha::many("s", 5);
        let (v, a) = (s.get(i / n), &a[(i % n) as usize]);
        let st = ProductionString::from(v.iter().map(|k| if *k == 4 { Symbol::from_code(4_000_000_000) } else { al.syms[*k] }).collect::<Vec<_>>());
        for (k, (w, h)) in SIZES.into_iter().enumerate() {
            let p = Probe::new(a.clone(), k * 5);
            let svg = SvgPathInterpretation::new_with(w, h, p.clone());
            let input = |store: &str| format!("interpreting {} with {store} on a {w} by {h} canvas, the inner interpretation answering {a:?}", show(&st.to_string()));
            if (svg.width(), svg.height()) != (w, h) { return fail(input("no store"), "the size is not kept") }
            if svg.run_settings().max_iterations != k * 5 { return fail(input("no store"), "the run settings are not the inner ones") }
            let sys = System::new();
            sys.add_symbol("s1").unwrap();
            once(&svg, &p, &sys, &[false, true, false, false, true], &st, w, h, &|| input("a system"))?;
            once(&svg, &p, &sys, &[false, true, false, true, true], &st, w, h, &|| input("a system, again"))?;
            if sys.symbol_len() != 2 || sys.production_len() != 0 { return fail(input("a system"), "the system was changed by more than the inner interpretation") }
            let cell: RefCell<HashSet<u32>> = Default::default();
            once(&svg.clone(), &p, &cell, &[false, false, false, false, true], &st, w, h, &|| input("a cell"))?;
            if cell.borrow().len() != 1 { return fail(input("a cell"), "the store was changed by more than the inner interpretation") }
            let own = Own::default();
            once(&svg, &p, &own, &[true, false, false, false, false], &st, w, h, &|| input("a store of one's own"))?;
            if own.log.borrow().iter().any(|l| l.starts_with("add") && l != "add late") { return fail(input("a store of one's own"), format!("the store was asked {:?}", own.log.borrow())) }
        }
        ctx.done(hash(&(&v, a)), 16);
        ctx.sample(|| format!("{v:?} {a:?}"));
        Ok(())
    })
}

/// Everything the inner interpretation returns is drawn, in order.
fn drawings(tier: Tier) -> Family {
    let n = Seqs::new(4, 0, tier.pick(7, 8)).size();
    Family::new("every short drawing of the inner interpretation", n, move |i, ctx| drawn(ANY + i as usize, ctx))
}
fn long_drawings(tier: Tier) -> Family {
    let lens = lengths(tier.pick(300, 1200), tier.pick(40_000, 140_000));
    Family::new("drawings of every size, as many paths and as one", 2 * lens.len() as u64, move |i, ctx| drawn(if i % 2 == 0 { 4 + lens[i as usize / 2] } else { LONG + lens[i as usize / 2] }, ctx))
}
fn drawn(k: usize, ctx: &mut Ctx) -> Case {
    let (w, h) = SIZES[k / 3 % 4];
    let p = Probe::new(Answer::Paths(k), 1);
    let svg = SvgPathInterpretation::new_with(w, h, p.clone());
    once(&svg, &p, &System::new(), &[false, false, false, false, true], &ProductionString::new(), w, h, &|| { let d = drawing(k); format!("the inner interpretation drawing {} on a {w} by {h} canvas", if d.iter().map(|p| p.len()).sum::<usize>() < 30 { format!("{d:?}") } else { format!("{} paths", d.len()) }) })?;
    ctx.done(hash(&k), 1);
    Ok(())
}

/// Nothing is kept from one drawing to the next.
fn histories(tier: Tier) -> Family {
    let ops = 3 * 8;
    let s = Seqs::new(ops, 0, tier.pick(3, 4));
    let a = answers();
    Family::new("every history of interpreting with several instances", s.size(), move |i, ctx| {
        let v = s.get(i);
        let al = Alpha::many("s", 3);
        let strings = [ProductionString::new(), al.string(&[0, 1, 0]), al.string(&[2])];
        let mut made: Vec<Option<(SvgPathInterpretation<Probe>, Probe)>> = vec![None; a.len()];
        let sys = System::new();
        let mut late = false;
        for (at, op) in v.iter().enumerate() {
            let (k, st) = (op % 8, &strings[op / 8]);
            let (w, h) = SIZES[k % 4];
            let (svg, p) = made[k].get_or_insert_with(|| { let p = Probe::new(a[k].clone(), k); (SvgPathInterpretation::new_with(w, h, p.clone()), p) });
            once(svg, p, &sys, &[false, false, false, late, true], st, w, h, &|| format!("call {at} of the history {:?}", v.iter().map(|o| format!("{} with {:?}", strings[o / 8], a[o % 8])).collect::<Vec<_>>()))?;
            late = true;
        }
        ctx.done(hash(&v), v.len() as u64);
        Ok(())
    })
}

/// Alphabets, defaults and the interpretation that does nothing.
fn alphabets() -> Family {
    Family::new("alphabets, defaults, the null interpretation", 6, |i, ctx| {
        let s = oops(<SvgPathInterpretation<Probe> as Interpretation>::system(), "the wrapped alphabet")?;
        if s.symbol_len() != 2 || s.production_len() != 1 || s.get_symbol("mark").is_none() { return fail("the wrapped alphabet", "is not the inner one") }
        let r = oops(s.derive("probe".parse().unwrap(), 2.into()), "the wrapped alphabet")?;
        if r.to_string() != "probe mark mark" { return fail("the wrapped alphabet", "has other rules than the inner one") }
        match quiet(<SvgPathInterpretation<NoSystem> as Interpretation>::system) { Ok(Err(e)) if e.to_string() == "there is no alphabet" => {} _ => return fail("a failing alphabet", "the failure is not passed on") }
        let d = SvgPathInterpretation::<Probe>::default();
        if (d.width(), d.height(), d.run_settings().max_iterations) != (500, 500, 77) { return fail("the default", "is not 500 by 500 around the inner default") }
        let d = SvgPathInterpretation::<Probe>::new(3, 4);
        if (d.width(), d.height(), d.run_settings().max_iterations) != (3, 4, 77) { return fail("new(3, 4)", "is not 3 by 4 around the inner default") }
        for st in [ProductionString::new(), "s0 s1 s2".parse().unwrap()] {
            let got = oops(calm(|| "by default".into(), || SvgPathInterpretation::<Probe>::default_interpret(&s, &st))?, "by default")?;
            model::check_svg(&got.to_svg(), &drawing(3), None, 500, 500, 1e-6).or_else(|e| fail("interpreting by default", e))?;
            let got = oops(calm(|| "by default".into(), || Probe::default_interpret(&s, &st))?, "by default")?;
            if got.len() != drawing(3).len() { return fail("the inner one by default", "is another drawing") }
            let got = oops(NullInterpretation::default_interpret(&s, &st), "the null interpretation")?;
            let () = got;
        }
        let n = oops(NullInterpretation::system(), "the null interpretation")?;
        if n.symbol_len() + n.production_len() != 0 { return fail("the null interpretation", "has an alphabet") }
        if NullInterpretation::default().run_settings().max_iterations != RunSettings::default().max_iterations { return fail("the null interpretation", "has run settings of its own") }
        let t = AbopTurtleInterpretation::default();
        if (t.n(), t.delta()) != (5, 22.5) || t.run_settings().max_iterations != 5 { return fail("the default turtle", format!("makes {} iterations at {} degrees", t.n(), t.delta())) }
        let t = AbopSvgInterpretation::default();
        if (t.width(), t.height(), t.run_settings().max_iterations) != (500, 500, 5) { return fail("the default turtle's SVG", "has another size or other settings") }
        ctx.done(i, 14);
        Ok(())
    }).chunk(1)
}

/// The null interpretation takes every string and touches nothing.
fn null(tier: Tier) -> Family {
    let s = Seqs::new(6, 0, tier.pick(5, 6));
    Family::new("every string for the null interpretation", s.size(), move |i, ctx| {
        let v = s.get(i);
        let names = ["Forward", "]", "[", "+", "odd"];
        let st = ProductionString::from(v.iter().map(|k| if *k == 5 { Symbol::from_code(7) } else { Symbol::build(names[*k]).unwrap() }).collect::<Vec<_>>());
        let own = Own::default();
        oops(calm(|| st.to_string(), || NullInterpretation::default().interpret(&own, &st))?, &st.to_string())?;
        let sys = System::new();
        oops(calm(|| st.to_string(), || NullInterpretation::default_interpret(&sys, &st))?, &st.to_string())?;
        if sys.symbol_len() != 0 { return fail(st.to_string(), "the null interpretation changed the system") }
        // the default turtle is what default_interpret uses
        let t = AbopTurtleInterpretation::system().unwrap();
        let cmds: Vec<Cmd> = v.iter().map(|k| if *k == 5 { Cmd::Other } else { model::cmd(names[*k]) }).collect();
        let input = || format!("{} by default", show(&st.to_string()));
        match (calm(input, || AbopSvgInterpretation::default_interpret(&t, &st))?, model::turtle(&cmds, 22.5)) {
            (Ok(svg), Some((paths, end))) => model::check_svg(&svg.to_svg(), &paths, Some(end), 500, 500, 1e-5).or_else(|e| fail(input(), e))?,
            (Err(_), None) => {}
            (g, w) => return fail(input(), format!("gave a drawing: {}, and should: {}", g.is_ok(), w.is_some())),
        }
        ctx.done(hash(&v), 3);
        Ok(())
    })
}

/// Settings are kept as they are given.
fn settings(tier: Tier) -> Family {
    let mut ns = lengths(tier.pick(300, 2000), 1 << 62);
    ns.extend([usize::MAX, usize::MAX - 1, 1 << 63]);
    let k = ns.len() as u64;
    let angles = 512u64 * 8;
    Family::new("every setting", k + angles, move |i, ctx| {
        let (n, d) = if i < k { (ns[i as usize], i as f32 / 7.0) } else {
            // every sign and exponent, eight mantissas each
            let (e, m) = ((i - k) / 8, (i - k) % 8);
            (m as usize, f32::from_bits((e as u32) << 23 | [0, 1, 0x7f_ffff, 0x40_0000, 0x3f_ffff, 0x12_3456, 0x00_8000, 0x2a_aaaa][m as usize]))
        };
        let input = || format!("{n} iterations, angle {d}");
        let t = AbopTurtleInterpretation::new(n, d);
        for t in [t.clone(), t] {
            if t.n() != n || !(t.delta() == d || t.delta().is_nan() && d.is_nan()) { return fail(input(), format!("became {} and {}", t.n(), t.delta())) }
            if t.run_settings().max_iterations != n { return fail(input(), "the run settings have another number") }
            let w = SvgPathInterpretation::new_with(n, i as usize, t);
            for w in [w.clone(), w] {
                if (w.width(), w.height(), w.run_settings().max_iterations) != (n, i as usize, n) { return fail(input(), "the wrapped settings differ") }
            }
        }
        // every size, with every size, asked for in either way
        if i < k {
            for m in &ns {
                for (w, h) in [(n, *m), (*m, n)] {
                    let (x, y) = (SvgPathInterpretation::<AbopTurtleInterpretation>::new(w, h), SvgPathInterpretation::new_with(w, h, AbopTurtleInterpretation::default()));
                    if [(x.width(), x.height()), (y.width(), y.height())] != [(w, h); 2] { return fail(format!("a canvas of {w} by {h}"), format!("became {:?} and {:?}", (x.width(), x.height()), (y.width(), y.height()))) }
                    if [x.run_settings().max_iterations, y.run_settings().max_iterations] != [5, 5] { return fail(format!("a canvas of {w} by {h}"), "changed the number of iterations") }
                }
            }
        }
        let a = RunSettings::from(n);
        let b = RunSettings::for_max_iterations(n);
        if a.max_iterations != n || b.clone().max_iterations != n || RunSettings::default().max_iterations != 10 { return fail(input(), "run settings differ") }
        ctx.done(hash(&(n, d.to_bits())), 8);
        Ok(())
    })
}

/// Kinds of interpretations that have no fields, and one that has: each with an alphabet, settings and drawings of its own.
#[derive(Clone, Debug, Default)]
struct Unit<const N: usize>;
#[derive(Clone, Debug)]
struct Wide<const N: usize>(u64, [u8; 9]);
impl<const N: usize> Default for Wide<N> { fn default() -> Self { Wide(N as u64, [N as u8; 9]) } }
trait Kind: Interpretation<Item = Vec<Path>> + Default + Clone { const N: usize; }
impl<const M: usize> Kind for Unit<M> { const N: usize = M; }
impl<const M: usize> Kind for Wide<M> { const N: usize = M; }
fn own_system(n: usize) -> Result<System, Error> {
    if n == 3 { return Err(Error::general("kind 3 has none")) }
    let s = System::new();
    s.add_production(format!("k{n} -> k{n} of{n}").as_str())?;
    Ok(s)
}
fn own_paths<S: SymbolStore>(n: usize, st: &S, s: &ProductionString) -> Result<Vec<Path>, Error> {
    st.add_symbol(format!("seen{n}").as_str())?;
    Ok((0..n + s.len()).map(|j| [Point::new(j as f64, n as f64), Point::new(n as f64 + 3.0, -(j as f64))].into_iter().collect()).collect())
}
fn own_drawing(n: usize, len: usize) -> Vec<Vec<P>> { (0..n + len).map(|j| vec![(j as f64, n as f64), (n as f64 + 3.0, -(j as f64))]).collect() }
macro_rules! kind { ($t:ident) => { impl<const N: usize> Interpretation for $t<N> {
    type Item = Vec<Path>;
    fn system() -> Result<System, Error> { own_system(N) }
    fn interpret<S: SymbolStore>(&self, st: &S, s: &ProductionString) -> Result<Vec<Path>, Error> { own_paths(N, st, s) }
    fn run_settings(&self) -> RunSettings { (20 + N).into() }
} } }
kind!(Unit);
kind!(Wide);

fn ask<T: Kind>(op: usize) -> Result<(), String> {
    let n = T::N;
    let e = |e: Error| e.to_string();
    let size = |svg: &SvgPathInterpretation<T>, w, h| if (svg.width(), svg.height()) == (w, h) { Ok(()) } else { Err(format!("the size is {} by {}", svg.width(), svg.height())) };
    let st: ProductionString = "one two three".parse().map_err(|_| "no string")?;
    match op {
        0 => {
            let svg = SvgPathInterpretation::new_with(10 + n, 90, T::default());
            size(&svg, 10 + n, 90)?;
            let m = svg.clone().run_settings().max_iterations;
            if m != 20 + n { return Err(format!("the settings are {m} iterations")) }
        }
        1 => match (<SvgPathInterpretation<T> as Interpretation>::system(), n) {
            (Err(e), 3) if e.to_string() == "kind 3 has none" => {}
            (Ok(s), 0..=2 | 4..) => {
                let d = s.derive(format!("k{n}").parse().map_err(|_| "no string")?, 2.into()).map_err(e)?.to_string();
                if s.symbol_len() != 2 || s.production_len() != 1 || d != format!("k{n} of{n} of{n}") { return Err(format!("the alphabet derives {d}")) }
            }
            (r, _) => return Err(format!("the alphabet is there: {}", r.is_ok())),
        },
        2 => {
            let svg = SvgPathInterpretation::new_with(60, 20 + n, T::default());
            let sys = System::new();
            let doc = svg.interpret(&sys, &st).map_err(e)?.to_svg();
            if sys.get_symbol(&format!("seen{n}")).is_none() || sys.symbol_len() != 1 { return Err("another kind was given the store".into()) }
            model::check_svg(&doc, &own_drawing(n, 3), None, 60, 20 + n, 1e-6)?;
        }
        3 => {
            let sys = System::new();
            let doc = SvgPathInterpretation::<T>::default_interpret(&sys, &st).map_err(e)?.to_svg();
            if sys.get_symbol(&format!("seen{n}")).is_none() || sys.symbol_len() != 1 { return Err("another kind was given the store".into()) }
            model::check_svg(&doc, &own_drawing(n, 3), None, 500, 500, 1e-6)?;
        }
        _ => {
            for (svg, w, h) in [(SvgPathInterpretation::<T>::default(), 500, 500), (SvgPathInterpretation::<T>::new(n, 7), n, 7)] {
                size(&svg, w, h)?;
                let m = svg.run_settings().max_iterations;
                if m != 20 + n { return Err(format!("the settings by default are {m} iterations")) }
            }
        }
    }
    Ok(())
}
fn ask_kind(kind: usize, op: usize) -> Result<(), String> {
    match kind { 0 => ask::<Unit<0>>(op), 1 => ask::<Unit<1>>(op), 2 => ask::<Wide<2>>(op), 3 => ask::<Unit<3>>(op), _ => ask::<Wide<4>>(op) }
}

/// Every kind is asked for its own, whatever was asked of other kinds before.
fn kinds(tier: Tier) -> Family {
    let s = Seqs::new(25, 1, tier.pick(3, 4));
    Family::new("every history of questions to wrappers of several kinds, in fresh processes", s.size(), move |i, ctx| {
        let v = s.get(i);
        let show = || v.iter().map(|o| format!("{} of kind {}", ["run_settings", "system", "interpret", "default_interpret", "default"][o / 5], o % 5)).collect::<Vec<_>>().join(", ");
        let r = in_child(60, || {
            for (at, o) in v.iter().enumerate() { if let Err(e) = ask_kind(o % 5, o / 5) { return format!("question {at}: {e}").into_bytes() } }
            vec![]
        });
        match r { Ok(m) if m.is_empty() => {} Ok(m) => return fail(show(), String::from_utf8_lossy(&m).into_owned()), Err(e) => return fail(show(), e) }
        ctx.done(hash(&v), v.len() as u64);
        ctx.sample(show);
        Ok(())
    }).patience(120)
}

// ------------------------------------------------------------------ threads

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Call { Draw(usize), Wrong, AddRule, AddSymbol, Alphabet }
const DRAWN: [&str; 4] = ["Forward", "Forward + Forward Move Forward", "[ Forward ] X [ + Forward ]", "later Forward"];

fn setup(prog: &[Vec<Call>]) -> (Vec<Body>, Judge) {
    let sys = Arc::new(AbopTurtleInterpretation::system().unwrap());
    let it = Arc::new(AbopSvgInterpretation::new_with(300, 200, AbopTurtleInterpretation::new(3, 30.0)));
    let log = Arc::new(Mutex::new(vec![]));
    let bodies: Vec<Body> = prog.iter().enumerate().map(|(t, calls)| {
        let (sys, it, log, calls) = (sys.clone(), it.clone(), log.clone(), calls.clone());
        Box::new(move || for c in calls {
            let r: Result<String, String> = match quiet(|| match c {
                Call::Draw(k) => it.interpret(&*sys, &DRAWN[k].parse().unwrap()).map(|s| s.to_svg()),
                Call::Wrong => it.interpret(&*sys, &"Forward ]".parse().unwrap()).map(|s| s.to_svg()),
                Call::AddRule => sys.add_production("X -> later").map(|p| p.all_bodies().len().to_string()),
                Call::AddSymbol => sys.add_symbol("later").map(|s| s.to_string()),
                Call::Alphabet => AbopSvgInterpretation::system().map(|s| s.symbol_len().to_string()),
            }) { Ok(Ok(s)) => Ok(s), Ok(Err(e)) => Err(e.to_string()), Err(m) => Err(format!("panicked: {m}")) };
            log.lock().unwrap().push((t, c, r));
        }) as Body
    }).collect();
    let judge = move |_: &vctl::sched::Outcome| -> Result<String, String> {
        let log = log.lock().unwrap();
        for (t, c, r) in log.iter() {
            let bad = |m: String| Err(format!("thread {t}, {c:?}: {m}"));
            match (c, r) {
                (Call::Draw(k), Ok(doc)) => {
                    let cmds: Vec<Cmd> = DRAWN[*k].split(' ').map(model::cmd).collect();
                    let (paths, end) = model::turtle(&cmds, 30.0).unwrap();
                    if let Err(e) = model::check_svg(doc, &paths, Some(end), 300, 200, 1e-5) { return bad(format!("{e}; document {doc}")) }
                }
                (Call::Wrong, Err(e)) if !e.starts_with("panicked") => {}
                (Call::AddRule, Ok(n)) if n.parse::<usize>().is_ok_and(|n| n <= log.iter().filter(|l| l.1 == Call::AddRule).count()) => {}
                (Call::AddSymbol, Ok(n)) if n == "later" => {}
                (Call::Alphabet, Ok(n)) if n == "7" => {}
                (_, r) => return bad(format!("gave {r:?}")),
            }
        }
        Ok(format!("{:?}", log.iter().map(|l| (l.0, l.1, hash(&l.2))).collect::<Vec<_>>()))
    };
    (bodies, Box::new(judge))
}

fn threads(name: &str, progs: Vec<Vec<Vec<Call>>>, bound: Bound) -> Family {
    Family::new(name, progs.len() as u64, move |i, ctx| {
        let prog = &progs[i as usize];
        explore(&format!("threads {prog:?}"), &|| setup(prog), bound, 200_000, ctx)
    }).chunk(2).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> {
    use crate::props::c03::{mix, seqs};
    let all = [Call::Draw(0), Call::Draw(1), Call::Draw(2), Call::Draw(3), Call::Wrong, Call::AddRule, Call::AddSymbol, Call::Alphabet];
    let few = [Call::Draw(1), Call::Wrong, Call::AddRule];
    vec![calls(tier), drawings(tier), long_drawings(tier), histories(tier), alphabets(), null(tier), settings(tier), kinds(tier),
        threads("2 threads x 1 call on one interpretation", mix(2, &seqs(1, &all)), Bound::Preemptions(tier.pick(2, 3))),
        threads("2 threads x 2 calls on one interpretation", mix(2, &seqs(2, &few)), Bound::Preemptions(tier.pick(1, 2))),
        threads("3 threads x 1 call on one interpretation", mix(3, &seqs(1, &few)), Bound::Preemptions(tier.pick(1, 2)))]
}

pub const PROPERTY: Property = Property {
    id: "C25", level: "model_checking",
    rule: "Every string up to the length, store, canvas and answer of an inner interpretation that notes what it is given; every history of drawings with several instances; every history of questions to wrappers of several kinds of inner interpretations, in fresh processes; every setting; and all schedules of small programs of threads that share one interpretation and one system. Documents are parsed and compared with the inner drawing. Distinct states are distinct (string, answer), histories, settings and outcomes.",
    assumptions: &["sequentially consistent interleavings at synchronisation operations"],
    families,
};
