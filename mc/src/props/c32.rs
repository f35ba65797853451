//! C32: threads that work on things of their own do not notice one another.
use crate::props::c03::mix;
use crate::props::c16::Scratch;
use crate::{engine::*, explore::*, util::*};
use rusty_systems::geometry::{Bounds, Path, Point, Vector};
use rusty_systems::interpretation::abop::{self, AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::*;
use rusty_systems::parser::{self, iterator::TokenIterator};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead, ProductionStore};
use rusty_systems::symbols::{iterator::SymbolIterable, SymbolStore};
use rusty_systems::system::{self, family};
use std::cell::RefCell;
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

/// A piece of work from text to result, all on objects of its own.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Job { Plant(usize), PlantFile(usize), Save(usize), Str, Text(usize), Rule(usize), Merge, Stores, Derive(usize), Draw(usize), Wrong, Unmatched, Fam, GetOrInit, OfFamily, Symbols, Tokens, Elements, Geometry, NoSuch, Turtle, WrongPlant, One, DrawnBare }
use Job::*;
const PLANTS: [&str; 3] = [
    "n = 2\ndelta = 30\ninitial: X\nX -> Forward + X - Move Forward",
    "# another\ndelta = 90.5 # degrees\ninitial: Forward Q\nForward -> Forward Forward\nQ < Q -> [ Forward ]\nn = 1",
    "initial: Forward\nForward ->",
];
const TEXTS: [&str; 3] = ["a b  a", "new-one;rest", "  Forward\t+ [ ]"];
const RULES: [&str; 3] = ["a < b > c -> 0.5 a d", "X -> X X", "q ->"];
const STARTS: [&str; 2] = ["a b c", "b a"];

fn e<T>(r: Result<T, Error>) -> Result<T, String> { r.map_err(|e| format!("failed: {e}")) }
fn rule(p: &Production) -> String {
    format!("{:?} < {} > {:?} -> {:?}", p.head().pre_context().map(|s| s.to_string()), p.head().target(), p.head().post_context().map(|s| s.to_string()),
        p.all_bodies().iter().map(|b| (b.chance().is_user_set().then(|| b.chance().unwrap()), b.string().to_string())).collect::<Vec<_>>())
}
fn names(f: &SystemFamily) -> String {
    let mut v: Vec<String> = f.symbols().map(|s| format!("{}={:?}", s.name, s.description)).collect();
    v.sort();
    format!("{}: {}", f.name(), v.join(","))
}
fn shown(i: AbopTurtleInterpretation, s: &System, axiom: ProductionString, w: usize, h: usize) -> Result<Svg, String> {
    let i = SvgPathInterpretation::new_with(w, h, i);
    let st = e(s.derive(axiom, i.run_settings()))?;
    e(i.interpret(s, &st))
}
/// `own`: the thread's directory; `t` makes the names of families its own.
fn work(j: Job, t: usize, own: &std::path::Path) -> Result<String, String> {
    Ok(match j {
        Plant(k) => { let (i, s, a) = e(abop::parser::parse(PLANTS[k]))?; let (n, d) = (i.n(), i.delta()); format!("{n} {d} {} {}", s.production_len(), shown(i, &s, a, 300 + k, 200)?.to_svg()) }
        PlantFile(k) => { let (i, s, a) = e(abop::parser::parse_file(own.join(format!("{k}.plant"))))?; format!("{} {} {} {a}", i.n(), i.delta(), s.production_len()) }
        Save(k) => {
            let i = AbopSvgInterpretation::new_with(90, 80 + k, AbopTurtleInterpretation::new(1, 45.0));
            let s = e(AbopTurtleInterpretation::system())?;
            let svg = e(i.interpret(&s, &e(parser::parse_prod_string(["Forward", "Forward + Forward [ - Forward ] Move Forward"][k]))?))?;
            let f = own.join("out.svg");
            svg.save_file(&f).map_err(|e| e.to_string())?;
            let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let mut there: Vec<_> = std::fs::read_dir(own).map_err(|e| e.to_string())?.map(|f| f.unwrap().file_name()).collect();
            there.sort();
            format!("{} {there:?} {text}", text == svg.to_svg())
        }
        Str => { let s: ProductionString = e("x y x".parse())?; format!("{s} {} {}", s.len(), s[0] == s[2]) }
        Text(k) => { let s = e(parser::parse_prod_string(TEXTS[k]))?; format!("{s} {:?}", s.symbols().iter().map(|s| s.name()).collect::<Vec<_>>()) }
        Rule(k) => rule(&e(parser::parse_production(RULES[k]))?),
        Merge => { let s = System::new(); e(s.add_production("a -> b"))?; let p = e(s.add_production("a -> 0.25 c d"))?; format!("{} {} {}", rule(&p), s.production_len(), s.symbol_len()) }
        Stores => {
            let (p, n) = (RefCell::new(Vec::<Production>::new()), RefCell::new(HashSet::<u32>::new()));
            let a = e(p.add_production("own -> own b"))?;
            let b = e(n.add_symbol("own"))?;
            format!("{} {b} {:?} {:?} {}", rule(&a), n.get_symbol("own").map(|s| s.to_string()), n.get_symbol("b").map(|s| s.to_string()), p.borrow().len())
        }
        Derive(k) => {
            let s = System::new();
            for r in ["a < b > c -> a a", "a -> c"] { e(s.add_production(r))?; }
            let st = e(parser::parse_prod_string(STARTS[k]))?;
            format!("{} {}", e(s.derive(st.clone(), RunSettings::for_max_iterations(2)))?, e(s.derive_once(st))?)
        }
        Draw(k) => { let s = e(AbopTurtleInterpretation::system())?; let st = e(parser::parse_prod_string(["Forward", "[ + Forward ] - Forward"][k]))?; format!("{:?}", e(AbopTurtleInterpretation::new(1, 10.0 + k as f32).interpret(&s, &st))?) }
        Wrong => ["", "-> a", "a b -> c", "a", "a -> 7 b", "a < -> b"].iter().map(|t| match t.parse::<Production>() { Ok(p) => rule(&p), Err(e) => format!("{e} / {e:?}") }).collect::<Vec<_>>().join("; "),
        Unmatched => { let s = e(AbopTurtleInterpretation::system())?; match AbopTurtleInterpretation::default().interpret(&s, &e(parser::parse_prod_string("Forward ]"))?) { Ok(_) => "drawn".into(), Err(e) => e.to_string() } }
        Fam => {
            let n = format!("own{t}");
            let f = e(SystemFamily::define().with_terminal("z", Some("one")).with_production("p", None).register(&n))?;
            let again = family::register(e(SystemFamily::define().build(&n))?).is_err();
            format!("{} {again} {}", names(&f).replace(&n, "own"), family::get_family(&n).is_some_and(|g| Arc::ptr_eq(&f, &g)))
        }
        GetOrInit => { let n = format!("init{t}"); let mut k = 0; let f = family::get_or_init_family(&n, || { k += 1; SystemFamily::define().with_terminal("z", None).build(&n).unwrap() }); format!("{} {k} {}", names(&f).replace(&n, "own"), family::family_exists(&n)) }
        OfFamily => { let f = e(SystemFamily::define().with_terminal("+", None).with_production("own", None).build(format!("of{t}")))?; let s = e(System::of_family(f))?; format!("{} {:?} {:?}", s.symbol_len(), s.get_symbol("+").map(|s| s.to_string()), s.get_symbol("a").map(|s| s.to_string())) }
        Symbols => { let a = e(Symbol::build(" twice "))?; let b = e(Symbol::try_from("twice"))?; format!("{a} {} {:?} {:?}", a == b, e(Symbol::try_from(a.code()))?.name(), Symbol::build(" ").err().map(|e| e.to_string())) }
        Tokens => TokenIterator::new("a->b < é; c").map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" "),
        Elements => {
            let c = e(SvgCircle::build(Point::new(1.0, 2.5), 3.0))?;
            let d = SvgDecorations { fill: Some("a<b\"".into()), stroke: None, stroke_width: Some(0.1) };
            format!("{} {} {} {}", c.to_svg(), d.to_attr_string(), Svg::default().to_svg(), SvgPath::from([Point::new(0.1, 1e9), Point::new(-3.0, 0.0)].into_iter().collect::<Path>()).to_svg())
        }
        Geometry => { let p: Path = (0..4).map(|k| Point::from(Vector::new(k as f64, 2.0).rotate(30.0 * k as f64))).collect(); format!("{:?} {}", p.bounds(), (p.clone() + Vector::up())[3]) }
        NoSuch => { let n = format!("nobody{t}"); format!("{:?} {} {} {:?}", family::get_family(&n).is_none(), family::family_exists(&n), System::of_family(n.as_str()).is_err(), Symbol::try_from(u32::MAX).err().map(|e| e.to_string())) }
        Turtle => { let s = e(AbopTurtleInterpretation::system())?; let i = AbopTurtleInterpretation::default(); format!("{} {:?} {} {}", s.symbol_len(), s.get_symbol("Move").map(|s| s.to_string()), i.n(), names(&abop::abop_family())) }
        One => { let x = e(Symbol::build("x"))?; let p = Production::new(e(ProductionHead::build(None, x, None))?, ProductionBody::new(ProductionString::from(vec![x, x]))); let st = ProductionString::from(vec![x]); format!("{} {}", e(system::derive(st.clone(), &[p], 2.into()))?, e(System::new().derive(st, 1.into()))?) }
        DrawnBare => { let s = RefCell::new(HashSet::<u32>::new()); let f = e(Symbol::build("Forward"))?; e(s.add_symbol("Forward"))?; format!("{:?}", e(AbopTurtleInterpretation::default().interpret(&s, &ProductionString::from(vec![f, f])))?) }
        WrongPlant => ["n = x\ninitial: a\na -> b", "initial: a", "a -> b", "\n", "size = 4\n"].iter().map(|t| match abop::parser::parse(t) { Ok(_) => "fine".into(), Err(e) => e.to_string() }).collect::<Vec<_>>().join("; "),
    })
}
fn matching(t: &str) -> Result<String, String> {
    let h = e(ProductionHead::build(None, e(Symbol::build("m"))?, None))?;
    let p = Production::new(h, ProductionBody::new(e(parser::parse_prod_string(t))?));
    let s = e(parser::parse_prod_string("k m m"))?;
    Ok(format!("{} {} {}", system::find_matching(std::slice::from_ref(&p), &s, 1).is_some(), e(system::derive_once(s, std::slice::from_ref(&p)))?, p.all_symbols::<Vec<Symbol>>().len()))
}
fn jobs() -> Vec<Job> {
    vec![Plant(0), Plant(1), Plant(2), PlantFile(0), PlantFile(1), Save(0), Save(1), Str, Text(0), Text(1), Text(2), Rule(0), Rule(1), Rule(2), Merge, Stores, Derive(0), Derive(1), Draw(0), Draw(1), Wrong, Unmatched, Fam, GetOrInit, OfFamily, Symbols, Tokens, Elements, Geometry, NoSuch, Turtle, WrongPlant, One, DrawnBare]
}

fn perform(j: Job, t: usize, own: &std::path::Path) -> String {
    match quiet(|| { let r = work(j, t, own)?; Ok::<_, String>(if j == Tokens { r + &matching("m n")? } else { r }) }) { Ok(Ok(s)) => s, Ok(Err(e)) => format!("failed: {e}"), Err(m) => format!("panicked: {m}") }
}
/// Each thread's directory, as it is at the start.
fn prepare(dir: &std::path::Path, threads: usize) -> Vec<PathBuf> {
    let shared = dir.join("shared");
    let _ = std::fs::remove_dir_all(&shared);
    own_place(&shared.to_string_lossy());
    (0..threads).map(|t| {
        let d = dir.join(t.to_string());
        let _ = std::fs::remove_dir_all(&d);
        if std::fs::create_dir_all(&d).is_err() { engine_error("scratch directory") }
        for (k, p) in PLANTS.iter().enumerate() { if std::fs::write(d.join(format!("{k}.plant")), p).is_err() { engine_error("plant file") } }
        d
    }).collect()
}
/// What a thread that is alone in its process gets.
fn alone(seq: &[Job], dir: &std::path::Path) -> Result<Vec<String>, String> {
    let r = in_child(20, || { let d = prepare(dir, 1); seq.iter().map(|j| perform(*j, 0, &d[0])).collect::<Vec<_>>().join("\u{1}").into_bytes() })?;
    Ok(String::from_utf8_lossy(&r).split('\u{1}').map(|s| s.to_string()).collect())
}

fn setup(prog: &[Vec<Job>], want: &[Vec<String>], dir: &std::path::Path) -> (Vec<Body>, Judge) {
    let dirs = prepare(dir, prog.len());
    let log = Arc::new(Mutex::new(vec![]));
    let bodies: Vec<Body> = prog.iter().enumerate().map(|(t, jobs)| {
        let (log, jobs, own) = (log.clone(), jobs.clone(), dirs[t].clone());
        Box::new(move || for (k, j) in jobs.into_iter().enumerate() {
            let r = perform(j, t, &own);
            log.lock().unwrap().push((t, k, j, r));
        }) as Body
    }).collect();
    let want = want.to_vec();
    let judge = move |_: &vctl::sched::Outcome| -> Result<String, String> {
        let log = log.lock().unwrap();
        for (t, k, j, r) in log.iter() {
            if *r != want[*t][*k] { return Err(format!("thread {t}, {j:?}, got {} and alone gets {}", show(r), show(&want[*t][*k]))) }
        }
        Ok(format!("{:?}", log.iter().map(|l| (l.0, l.1, l.2)).collect::<Vec<_>>()))
    };
    (bodies, Box::new(judge))
}

fn threads(name: &str, progs: Vec<Vec<Vec<Job>>>, bound: Bound) -> Family {
    Family::new(name, progs.len() as u64, move |i, ctx| {
        let prog = &progs[i as usize];
        let s = Scratch::new(&format!("c32-{i}"));
        let input = || format!("threads {prog:?}");
        let want: Vec<_> = prog.iter().map(|p| alone(p, &s.0)).collect::<Result<_, _>>().or_else(|m| fail(input(), format!("alone in a process: {m}")))?;
        explore(&input(), &|| setup(prog, &want, &s.0), bound, 300_000, ctx)
    }).chunk(1).patience(120)
}

pub fn families(tier: Tier) -> Vec<Family> {
    let seq = |v: &[Job]| v.iter().map(|j| vec![*j]).collect::<Vec<_>>();
    let all = jobs();
    let short = [Str, Text(1), Rule(1), Symbols, Fam, GetOrInit, OfFamily, Tokens, NoSuch, Elements, Wrong, PlantFile(2)];
    let three = [Plant(2), Text(1), Rule(0), Merge, Draw(1), Save(1), GetOrInit, Turtle];
    let mut same = vec![One, Str, Symbols, NoSuch, Geometry, Elements];
    if tier == Tier::Thorough { same.extend([DrawnBare, Derive(0), Text(1), Draw(0), Rule(1), Fam, OfFamily, Turtle, PlantFile(2)]) }
    let twice = [vec![Plant(0), Plant(1)], vec![Draw(0), Draw(1)], vec![Save(0), Save(1)], vec![Text(0), Text(1)], vec![Rule(0), Rule(2)], vec![GetOrInit, Fam], vec![Derive(0), Derive(1)], vec![Turtle, OfFamily], vec![Stores, Merge]];
    vec![
        threads("2 threads x 1 job, every two jobs", mix(2, &seq(&all)), Bound::Preemptions(tier.pick(1, 2))),
        threads("2 threads x 1 short job", mix(2, &seq(&short)), Bound::Preemptions(tier.pick(2, 3))),
        threads("2 threads x 2 jobs", mix(2, &twice), Bound::Preemptions(tier.pick(1, 2))),
        threads("3 threads x 1 job", mix(3, &seq(&three)), Bound::Preemptions(tier.pick(1, 1))),
        threads("3 threads with the same job", same.iter().map(|j| vec![vec![*j]; 3]).collect(), Bound::Preemptions(2)),
    ]
}

pub const PROPERTY: Property = Property {
    id: "C32", level: "model_checking",
    rule: "A case is one program of threads that each do one or two whole jobs (texts, rules, systems, families, drawings, files) on objects of their own; all its schedules within the preemption bound run on the real code, and each job's result has to be what the same job gives alone in a fresh process. Distinct states are distinct orders of completion.",
    assumptions: &["sequentially consistent interleavings at synchronisation operations and requests for files", "jobs that draw random numbers are left out"],
    families,
};
