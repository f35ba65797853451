//! C27: what failures say.
use crate::{bridge::*, engine::*, util::*};
use crate::props::c16::{options, under, Scratch};
use rusty_systems::error::{Error, ErrorKind};
use rusty_systems::interpretation::abop::parser::{parse, parse_file};
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::svg::Svg;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser::{parse_and_add_production, parse_prod_string, parse_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionStore};
use rusty_systems::symbols::{SymbolStore};
use rusty_systems::system::family::{self, TryIntoFamily};
use std::cell::RefCell;
use std::error::Error as _;
use std::io;
use std::num::{ParseFloatError, ParseIntError};
use std::sync::{Arc, Mutex, PoisonError};
use vctl::io::{Answer, Op};

const KINDS: usize = 8;
fn kind(k: usize) -> ErrorKind {
    [ErrorKind::General, ErrorKind::Parse, ErrorKind::Definitions, ErrorKind::Duplicate, ErrorKind::Execution, ErrorKind::Locking, ErrorKind::Io, ErrorKind::Infallible][k].clone()
}
fn prefix(definition: bool) -> &'static str { if definition { "Definition error: " } else { "" } }
/// Does the error, and every copy of it, print this?
fn prints(e: &Error, want: &str, input: &dyn Fn() -> String) -> Case {
    let boxed: Box<dyn std::error::Error> = Box::new(e.clone());
    let into: Error = e.clone().into();
    for (what, t) in [("it", e.to_string()), ("it, printed again", format!("{e}")), ("its clone", e.clone().to_string()), ("its boxed clone", boxed.to_string()), ("its conversion into itself", into.to_string())] {
        if t != want { return fail(input(), format!("{what} says {} instead of {}", show(&t), show(want))) }
    }
    if format!("{e:?}").is_empty() { return fail(input(), "has no debug text") }
    Ok(())
}
fn no_cause(e: &Error, input: &dyn Fn() -> String) -> Case { if e.source().is_some() || e.clone().source().is_some() { fail(input(), "has a cause") } else { Ok(()) } }

const PIECES: [&str; 14] = ["a", "Definition error: ", " ", "\n", "{}", "{0}", "%s", "\"", "\\", "é", "😀", "\0", "error", ":"];
fn made(t: &str, input: &dyn Fn() -> String) -> Case {
    for k in 0..KINDS {
        for e in [Error::new(kind(k), t), Error::new(kind(k), t.to_string()), Error::new(kind(k), &t)] {
            prints(&e, &format!("{}{t}", prefix(k == 2)), &|| format!("{}, kind {:?}", input(), kind(k)))?;
            no_cause(&e, input)?;
        }
    }
    for (e, d) in [(Error::general(t), false), (Error::definition(t), true), (Error::parse_error(t), false), (Error::execution(t), false)] {
        prints(&e, &format!("{}{t}", prefix(d)), input)?;
        no_cause(&e, input)?;
    }
    Ok(())
}
fn texts(tier: Tier) -> Family {
    let s = Seqs::new(PIECES.len(), 0, tier.pick(3, 4));
    let l = lengths(tier.pick(300, 2000), 1 << 16);
    let n = s.size();
    Family::new("every text, every kind", n + l.len() as u64, move |i, ctx| {
        let t: String = if i < n { s.get(i).into_iter().map(|k| PIECES[k]).collect() } else { "né".chars().cycle().take(l[(i - n) as usize]).collect() };
        made(&t, &|| format!("an error made from {}", show(&t)))?;
        if i == 0 {
            let d = Error::default();
            if d.to_string().trim().is_empty() { return fail("the default error", "says nothing") }
            no_cause(&d, &|| "the default error".into())?;
            for (e, t) in [(Error::general('c'), "c"), (Error::general(17), "17"), (Error::parse_error(Symbol::build("name").unwrap()), "name"), (Error::execution(Error::definition("x")), "Definition error: x")] { prints(&e, t, &|| format!("an error made from {t}"))?; }
        }
        ctx.done(hash(&t), 28);
        Ok(())
    })
}

/// Is the cause of the error, and of its clone, this?
fn caused<T: std::error::Error + 'static>(e: &Error, same: &dyn Fn(&T) -> bool, input: &dyn Fn() -> String) -> Case {
    for (what, e) in [("it", e.clone()), ("its clone's clone", e.clone().clone())] {
        match e.source() {
            None => return fail(input(), format!("{what} has lost its cause; it says {}", show(&e.to_string()))),
            Some(c) => match c.downcast_ref::<T>() {
                None => return fail(input(), format!("{what} has a cause of another type: {c}")),
                Some(c) => if !same(c) { return fail(input(), format!("{what} has another cause: {c}")) },
            },
        }
    }
    Ok(())
}
#[derive(Debug)]
struct Deep(u64);
impl std::fmt::Display for Deep { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "deep down {}", self.0) } }
impl std::error::Error for Deep {}
const IO: [io::ErrorKind; 24] = {
    use io::ErrorKind::*;
    [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory,
        IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StorageFull, FileTooLarge, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof]
};
const DIGITS: [&str; 9] = ["0", "9", "-", "+", ".", "e", "x", "_", " "];
fn causes(tier: Tier) -> Family {
    let s = Seqs::new(DIGITS.len(), 0, tier.pick(4, 5));
    let n = s.size();
    Family::new("every cause", n + 134 + 2 * IO.len() as u64, move |i, ctx| {
        if i < n {
            let v = s.get(i);
            for t in [v.iter().map(|k| DIGITS[*k]).collect::<String>(), v.iter().map(|k| DIGITS[*k].repeat(11)).collect::<String>()] {
                fn int<T: std::str::FromStr<Err = ParseIntError>>(t: &str) -> Case {
                    let Err(c) = t.parse::<T>() else { return Ok(()) };
                    let input: &dyn Fn() -> String = &|| format!("the error of {t:?}, a malformed number");
                    let e: Error = c.clone().into();
                    prints(&e, &c.to_string(), input)?;
                    caused::<ParseIntError>(&e, &|x| *x == c, input)
                }
                int::<usize>(&t)?; int::<i8>(&t)?; int::<std::num::NonZeroU32>(&t)?;
                if let Err(c) = t.parse::<f32>() {
                    let input: &dyn Fn() -> String = &|| format!("the error of {t:?}, a malformed number");
                    let e: Error = c.clone().into();
                    prints(&e, &c.to_string(), input)?;
                    caused::<ParseFloatError>(&e, &|x| *x == c, input)?;
                }
            }
        } else if i < n + 134 {
            let code = (i - n) as i32;
            let input: &dyn Fn() -> String = &|| format!("operating system error {code}");
            let c = io::Error::from_raw_os_error(code);
            let (text, kind) = (c.to_string(), c.kind());
            let e: Error = c.into();
            prints(&e, &text, input)?;
            caused::<io::Error>(&e, &|x| x.raw_os_error() == Some(code) && x.kind() == kind, input)?;
        } else {
            let j = i - n - 134;
            let k = IO[(j / 2) as usize];
            let input: &dyn Fn() -> String = &|| format!("I/O error {k:?} {}", j % 2);
            let c = if j % 2 == 0 { io::Error::from(k) } else { io::Error::new(k, Deep(j)) };
            let text = c.to_string();
            let e: Error = c.into();
            prints(&e, &text, input)?;
            caused::<io::Error>(&e, &|x| x.kind() == k && (j % 2 == 0 || x.get_ref().and_then(|d| d.downcast_ref::<Deep>()).is_some_and(|d| d.0 == j)), input)?;
        }
        ctx.done(hash(&i), 4);
        Ok(())
    })
}
fn locks() -> Family {
    Family::new("poisoned locks", 1, |_, ctx| {
        let m = Arc::new(Mutex::new(5));
        let m2 = m.clone();
        let _ = quiet(move || { let _g = m2.lock(); panic!("poison") });
        let c = match m.lock() { Err(c) => c, Ok(_) => return fail("a poisoned lock", "is not") };
        let text = c.to_string();
        let e: Error = c.into();
        prints(&e, &text, &|| "the error of a poisoned lock".into())?;
        let e: Error = PoisonError::new(vec!["anything"]).into();
        prints(&e, &text, &|| "the error of something poisoned".into())?;
        ctx.done(0, 2);
        Ok(())
    })
}

// ------------------------------------------------------------------ the library's own failures

const TOKENS: [&str; 20] = ["A", "b", "->", "<", ">", ";", "0.5", "1.5", "-1", "nan", " ", "\n", "\t", "-", "é", "=", "n", "delta", "initial:", "#"];
/// Every rejected text is rejected with a word.
fn rejected(tier: Tier) -> Family {
    let s = Seqs::new(TOKENS.len(), 0, tier.pick(4, 5));
    Family::new("every text at every entry point", s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| TOKENS[k]).collect();
        let sys = System::new();
        let plant = format!("initial: A\nA -> A\n{t}");
        let said = |what: &str, r: Result<(), Error>| -> Case {
            let Err(e) = r else { return Ok(()) };
            let said = e.to_string();
            if said.strip_prefix("Definition error: ").unwrap_or(&said).trim().is_empty() { return fail(format!("{what} {}", show(&t)), "is rejected without a word") }
            prints(&e, &said, &|| format!("{what} {}", show(&t)))
        };
        said("the name", Symbol::build(&t).map(drop))?;
        said("the symbol", sys.add_symbol(t.as_str()).map(drop))?;
        said("the string", parse_prod_string(&t).map(drop))?;
        said("the string", t.parse::<ProductionString>().map(drop))?;
        said("the rule", t.parse::<Production>().map(drop))?;
        said("the rule", sys.add_production(t.as_str()).map(drop))?;
        said("the rule", parse_production(&t).map(drop))?;
        said("the rule", parse_and_add_production(&RefCell::<std::collections::HashSet<u32>>::default(), &RefCell::<Vec<Production>>::default(), &t).map(drop))?;
        said("the plant", parse(&t).map(drop))?;
        said("a plant with", parse(&plant).map(drop))?;
        said("a system named", System::of_family(t.as_str()).map(drop))?;
        said("a family named", SystemFamily::define().build(&t).map(drop))?;
        if let Ok(p) = parse_prod_string(&t) { said("drawing", AbopTurtleInterpretation::default().interpret(&sys, &p).map(drop))?; }
        ctx.done(hash(&t), 12);
        Ok(())
    })
}
/// A malformed number in a plant names its cause.
fn numbers(tier: Tier) -> Family {
    let s = Seqs::new(DIGITS.len(), 0, tier.pick(4, 5));
    Family::new("every malformed number in a plant", s.size() * 3, move |i, ctx| {
        let d: String = s.get(i / 3).into_iter().map(|k| DIGITS[k]).collect();
        let t = ["{}", " {}  # comment", "{}\r"][(i % 3) as usize].replace("{}", &d);
        for (k, name) in ["n", "N", "delta", "d", "D", "∂"].into_iter().enumerate() {
            let text = [format!("{name} ={t}\ninitial: A\nA -> B"), format!("n = 3\ninitial: A\nA -> B\n\n  {name}= {t}")][k % 2].clone();
            let input: &dyn Fn() -> String = &|| format!("the plant {}", show(&text));
            let r = calm(input, || parse(&text))?;
            let d = d.trim();
            match (name, d.parse::<usize>(), d.parse::<f32>(), r) {
                ("n" | "N", Err(c), _, Err(e)) => { caused::<ParseIntError>(&e, &|x| *x == c, input)?; if !e.to_string().contains(&c.to_string()) { return fail(input(), format!("says {} without {c}", show(&e.to_string()))) } }
                ("n" | "N", Ok(n), _, Ok(p)) if p.0.n() == n => {}
                ("n" | "N", ..) => return fail(input(), "is read otherwise"),
                (_, _, Err(c), Err(e)) => { caused::<ParseFloatError>(&e, &|x| *x == c, input)?; if !e.to_string().contains(&c.to_string()) { return fail(input(), format!("says {} without {c}", show(&e.to_string()))) } }
                (_, _, Ok(v), Ok(p)) if p.0.delta() == v => {}
                (_, _, Ok(v), Err(e)) if !v.is_finite() && !e.to_string().trim().is_empty() => {}
                _ => return fail(input(), "is read otherwise"),
            }
        }
        ctx.done(hash(&i), 6);
        Ok(())
    })
}
/// What the operating system says is passed on.
fn files() -> Family {
    Family::new("every failure of the operating system", 6 * 2, |i, ctx| {
        let dir = Scratch::new(&format!("c27-{i}"));
        let text = "initial: A\nA -> A B\n".repeat(400);
        let (good, bytes, sub) = (dir.0.join("good.plant"), dir.0.join("bytes.plant"), dir.0.join("sub"));
        for (p, b) in [(&good, text.as_bytes()), (&bytes, b"initial: A\nA -> \xff\xfe" as &[u8])] { if std::fs::write(p, b).is_err() { engine_error("prepare") } }
        if std::fs::create_dir(&sub).is_err() { engine_error("prepare") }
        match i / 2 {
            // real ones
            0..=3 => {
                let p = match i / 2 { 0 => dir.0.join("missing"), 1 => sub.clone(), 2 => bytes.clone(), _ => good.join("below a file") };
                let input: &dyn Fn() -> String = &|| format!("reading the plant file {:?}", p.file_name());
                let Err(c) = std::fs::read_to_string(&p) else { engine_error("prepare") };
                let Err(e) = parse_file(&p) else { return fail(input(), "succeeded") };
                // a file that can be read but holds no text may be told so in other words
                if i / 2 == 2 { if e.to_string().trim().is_empty() { return fail(input(), "says nothing") } else { ctx.done(i, 1); return Ok(()) } }
                caused::<io::Error>(&e, &|x| x.kind() == c.kind() && x.raw_os_error() == c.raw_os_error(), input)?;
                if !e.to_string().contains(&c.to_string()) { return fail(input(), format!("says {} without {c}", show(&e.to_string()))) }
                {
                    let out = match i / 2 { 0 => dir.0.join("no/such/place"), 1 => sub.clone(), _ => p.clone() };
                    let Err(c) = std::fs::File::create(&out) else { engine_error("prepare") };
                    match Svg::default().save_file(&out) {
                        Ok(()) => return fail(format!("saving to {:?}", out.file_name()), "succeeded"),
                        Err(e) => if e.raw_os_error() != c.raw_os_error() { return fail(format!("saving to {:?}", out.file_name()), format!("fails with {e} instead of {c}")) },
                    }
                }
            }
            // and one made up at each question
            4 => for at in 0..60 {
                let ((r, asked), _) = under(move |k, op| if k == at { options(op).into_iter().find(|a| *a == Answer::Fail).unwrap() } else { Answer::Ok }, 100_000, || (parse_file(&good), ())).pipe();
                let Some(op) = asked.get(at) else { break };
                let code = match op { Op::Read(_) => 5, Op::Write(_) => 28, Op::Open | Op::Create => 13, _ => continue };
                let input: &dyn Fn() -> String = &|| format!("reading a plant file when question {at}, {op:?}, fails");
                let Err(e) = r else { return fail(input(), "succeeded") };
                caused::<io::Error>(&e, &|x| x.raw_os_error() == Some(code), input)?;
            },
            _ => for at in 0..60 {
                let out = dir.0.join("out.svg");
                let ((r, asked), _) = under(move |k, op| if k == at { options(op).into_iter().find(|a| *a == Answer::Fail).unwrap() } else { Answer::Ok }, 100_000, || (Svg::default().save_file(&out), ())).pipe();
                let Some(op) = asked.get(at) else { break };
                let code = match op { Op::Read(_) => 5, Op::Write(_) => 28, Op::Open | Op::Create => 13, _ => continue };
                match r {
                    Ok(()) => return fail(format!("saving when question {at}, {op:?}, fails"), "succeeded"),
                    Err(e) => if e.raw_os_error() != Some(code) { return fail(format!("saving when question {at}, {op:?}, fails"), format!("fails with {e}")) },
                }
            },
        }
        ctx.done(i, 1);
        Ok(())
    }).chunk(1)
}
trait Pipe<R> { fn pipe(self) -> ((R, Vec<Op>), ()); }
impl<R> Pipe<R> for ((R, ()), crate::props::c16::Log) { fn pipe(self) -> ((R, Vec<Op>), ()) { (((self.0).0, self.1.asked.into_iter().map(|a| a.0).collect()), ()) } }

/// Errors about something that has a name say the name.
const NAMES: [&str; 10] = ["plant", "x y", " lead", "日本", "{}", "a\"b", "Forward", "0", "%s", "very long name of a family that goes on and on and on"];
fn named() -> Family {
    Family::new("every name", NAMES.len() as u64, |i, ctx| {
        let n = NAMES[i as usize];
        let says = |what: String, r: Result<(), Error>, n: &str| -> Case { match r { Ok(()) => fail(what, "succeeded"), Err(e) => if e.to_string().contains(n) { Ok(()) } else { fail(what, format!("says {} without {}", show(&e.to_string()), show(n))) } } };
        let own = format!("{n} of c27");
        says(format!("making a system of the unknown family {n:?}"), System::of_family(own.as_str()).map(drop), &own)?;
        says(format!("making a system of the unknown family {n:?}"), System::of_family(own.clone()).map(drop), &own)?;
        oops(SystemFamily::define().register(&own), "registering")?;
        says(format!("registering {n:?} again"), SystemFamily::define().with_terminal("t", None).register(&own).map(drop), &own)?;
        says(format!("registering the family {n:?} again"), family::register(SystemFamily::define().build(&own).unwrap()).map(drop), &own)?;
        let code = 4_000_000_000 - i as u32 * 7;
        says(format!("converting the code {code}"), Symbol::try_from(code).map(drop), &code.to_string())?;
        let line = format!("{} = 4", n.replace('#', ""));
        says(format!("the plant line {line:?}"), parse(&format!("initial: A\nA -> B\n{line}")).map(drop), line.trim())?;
        ctx.done(i, 6);
        Ok(())
    })
}

// ------------------------------------------------------------------ the caller's failures

/// The caller's own error: it becomes an `Error` with a cause.
#[derive(Clone, Copy, Debug)]
enum Mine { Text(&'static str), Definition, Io, Int, Nothing }
impl From<Mine> for Error {
    fn from(m: Mine) -> Error {
        match m { Mine::Text(t) => Error::parse_error(t), Mine::Definition => Error::definition("mine"), Mine::Io => io::Error::from_raw_os_error(104).into(), Mine::Int => "x7".parse::<usize>().unwrap_err().into(), Mine::Nothing => Error::execution("") }
    }
}
struct Cannot(Mine);
impl TryFrom<Cannot> for Symbol { type Error = Mine; fn try_from(c: Cannot) -> Result<Symbol, Mine> { Err(c.0) } }
impl TryFrom<Cannot> for Production { type Error = Mine; fn try_from(c: Cannot) -> Result<Production, Mine> { Err(c.0) } }
impl TryIntoFamily for Cannot { fn into_family(self) -> rusty_systems::Result<Arc<SystemFamily>> { Err(self.0.into()) } }
/// Refuses the k-th symbol, or the rule.
struct Refuses { at: usize, seen: RefCell<usize>, mine: Mine }
impl SymbolStore for Refuses {
    fn add_symbol<S>(&self, s: S) -> rusty_systems::Result<Symbol> where S: TryInto<Symbol>, S::Error: Into<Error> {
        let k = self.seen.replace_with(|k| *k + 1);
        if k == self.at { Err(self.mine.into()) } else { s.try_into().map_err(Into::into) }
    }
    fn get_symbol(&self, _: &str) -> Option<Symbol> { None }
}
impl ProductionStore for Refuses {
    fn add_production<P>(&self, p: P) -> rusty_systems::Result<Production> where P: TryInto<Production>, P::Error: Into<Error> { if self.at >= 100 { Err(self.mine.into()) } else { p.try_into().map_err(Into::into) } }
}
#[derive(Clone, Debug)]
struct Draws(Mine);
impl Default for Draws { fn default() -> Self { Draws(Mine::Nothing) } }
impl Interpretation for Draws {
    type Item = Vec<rusty_systems::geometry::Path>;
    fn system() -> rusty_systems::Result<System> { Err(Mine::Io.into()) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Self::Item> { Err(self.0.into()) }
}
fn callers() -> Family {
    const MINE: [Mine; 6] = [Mine::Text("that will not do"), Mine::Definition, Mine::Io, Mine::Int, Mine::Nothing, Mine::Text("  spaces \n around ")];
    Family::new("every failure of the caller's own code", MINE.len() as u64, move |i, ctx| {
        use rusty_systems::interpretation::svg::SvgPathInterpretation as Pi;
        let m = MINE[i as usize];
        let want = Error::from(m);
        let sys = System::new();
        oops(sys.add_production("A -> A B"), "A -> A B")?;
        let judge = |what: &str, r: Result<(), Error>| -> Case {
            let input: &dyn Fn() -> String = &|| format!("{what}, where the caller's code fails with {m:?}");
            let Err(e) = r else { return fail(input(), "succeeded") };
            prints(&e, &want.to_string(), input)?;
            match (e.source(), want.source()) {
                (None, None) => Ok(()),
                (Some(a), Some(b)) if a.to_string() == b.to_string() => match m {
                    Mine::Io => caused::<io::Error>(&e, &|x| x.raw_os_error() == Some(104), input),
                    _ => caused::<ParseIntError>(&e, &|_| true, input),
                },
                (a, b) => fail(input(), format!("has the cause {a:?} instead of {b:?}")),
            }
        };
        judge("adding a symbol", sys.add_symbol(Cannot(m)).map(drop))?;
        judge("adding a rule", sys.add_production(Cannot(m)).map(drop))?;
        judge("adding a symbol to a cell", RefCell::<std::collections::HashSet<u32>>::default().add_symbol(Cannot(m)).map(drop))?;
        judge("adding a rule to a cell", RefCell::<Vec<Production>>::default().add_production(Cannot(m)).map(drop))?;
        judge("making a system of a family", System::of_family(Cannot(m)).map(drop))?;
        let rule = "a b < A > c -> 0.5 d A";
        for at in [0, 1, 2, 3, 4, 5] {
            let st = Refuses { at, seen: RefCell::new(0), mine: m };
            judge(&format!("parsing a rule, at symbol {at}"), parse_and_add_production(&st, &RefCell::<Vec<Production>>::default(), rule).map(drop))?;
        }
        judge("parsing a rule, at the rule", { let st = Refuses { at: 100, seen: RefCell::new(0), mine: m }; parse_and_add_production(&st, &st, rule).map(drop) })?;
        let (none, st) = (ProductionString::new(), System::new());
        judge("drawing", Pi::new_with(5, 5, Draws(m)).interpret(&st, &none).map(drop))?;
        if matches!(m, Mine::Io) { judge("the alphabet of a drawing", <Pi<Draws> as Interpretation>::system().map(drop))?; }
        if matches!(m, Mine::Nothing) { judge("drawing by default", Pi::<Draws>::default_interpret(&st, &none).map(drop))?; }
        ctx.done(i, 14);
        Ok(())
    })
}
/// And chances out of range, and too large totals.
fn chances() -> Family {
    Family::new("chances", 4, |i, ctx| {
        let c = [0.0f32, -0.5, 1.5, f32::NAN][i as usize];
        match ProductionBody::try_with_chance(c, ProductionString::new()) { Ok(_) => return fail(format!("chance {c}"), "was accepted"), Err(e) => if e.to_string().trim().is_empty() { return fail(format!("chance {c}"), "is rejected without a word") } }
        let sys = System::new();
        for r in ["A -> 0.75 B", "A -> 0.75 C"] { oops(sys.add_production(r), r)?; }
        match sys.derive("A".parse().unwrap(), 1.into()) { Ok(_) => return fail("a total of 1.5", "was accepted"), Err(e) => if e.to_string().trim().is_empty() { return fail("a total of 1.5", "is rejected without a word") } }
        ctx.done(i, 2);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    vec![texts(tier), causes(tier), locks(), rejected(tier), numbers(tier), files(), named(), callers(), chances()]
}

pub const PROPERTY: Property = Property {
    id: "C27", level: "model_checking",
    rule: "Every text of up to the number of pieces with every kind of error; every malformed number text and operating-system error code as a cause; every text over an alphabet of tokens at every entry point; every malformed number in a plant; a failing answer to every question put to the operating system while reading and saving; and every way in which the caller's own code can fail at every entry point. Distinct states are distinct texts and causes.",
    assumptions: &[],
    families,
};
