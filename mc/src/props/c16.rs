//! C16: saving an SVG and reading a plant file, under every answer of the operating system.
use crate::{bridge::*, engine::*, model::P, util::*};
use crate::props::c14::Given;
use rusty_systems::interpretation::abop::{parser::{parse, parse_file}, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{Svg, SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use vctl::io::{self, Answer, Op};

/// A directory of this case's own, removed when done.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = PathBuf::from(format!("{}/mc-scratch-{}-{tag}", std::env::var("MC_OWN").unwrap_or("/tmp".into()), std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        if std::fs::create_dir_all(&p).is_err() { engine_error("scratch directory") }
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub fn options(op: Op) -> Vec<Answer> {
    use Answer::*;
    match op {
        Op::Write(n) => { let mut v = vec![Ok, Fail, Interrupted, Zero]; for k in [1, n / 2, n.saturating_sub(1)] { if k > 0 && k < n && !v.contains(&Short(k)) { v.push(Short(k)) } } v }
        Op::Read(n) => { let mut v = vec![Ok, Fail, Interrupted]; for k in [1, 2, 5] { if k < n { v.push(Short(k)) } } v }
        _ => vec![Ok, Fail],
    }
}

/// What was asked and answered in one run.
#[derive(Clone, Default)]
pub struct Log { pub asked: Vec<(Op, Answer)> }
impl Log {
    fn failed(&self) -> bool { self.asked.iter().any(|(o, a)| *a == Answer::Fail && matches!(o, Op::Create | Op::Open | Op::Write(_) | Op::Read(_))) }
    fn zero(&self) -> bool { self.asked.iter().any(|(_, a)| *a == Answer::Zero) }
    fn deviations(&self) -> u64 { self.asked.iter().filter(|a| a.1 != Answer::Ok).count() as u64 }
    fn other_failed(&self) -> bool { self.asked.iter().any(|(o, a)| *a == Answer::Fail && !matches!(o, Op::Create | Op::Open | Op::Write(_) | Op::Read(_))) }
}
impl std::fmt::Display for Log {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let n = self.asked.len();
        let mut last = None;
        let mut same = 0;
        for (k, x) in self.asked.iter().enumerate() {
            if Some(x) == last { same += 1; if k + 1 < n { continue } }
            if same > 0 { write!(f, " (and {same} times more)")?; same = 0; if Some(x) == last { continue } }
            write!(f, "{}{:?}: {:?}", if k > 0 { ", " } else { "" }, x.0, x.1)?;
            last = Some(x);
        }
        Result::Ok(())
    }
}

/// Runs `f` with these answers to what it asks.
pub fn under<T>(mut answer: impl FnMut(usize, Op) -> Answer + 'static, limit: usize, f: impl FnOnce() -> T) -> (T, Log) {
    let log = Rc::new(RefCell::new(Log::default()));
    let l = log.clone();
    io::set(Some(Box::new(move |op| {
        let mut l = l.borrow_mut();
        if l.asked.len() >= limit { drop(l); panic!("keeps asking the operating system after {limit} answers") }
        let a = answer(l.asked.len(), op);
        l.asked.push((op, a));
        a
    })));
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { io::set(None) } }
    let r = { let _r = Reset; f() };
    let l = log.borrow().clone();
    (r, l)
}

/// Every way to answer with at most `bound` answers other than plain success, among the first
/// `horizon` questions.
fn every_answer(bound: usize, horizon: usize, mut run: impl FnMut(Vec<usize>) -> Result<Log, Fail>) -> Result<(), Fail> {
    let mut todo: Vec<Vec<usize>> = vec![vec![]];
    while let Some(prefix) = todo.pop() {
        let log = run(prefix.clone())?;
        let used = prefix.iter().filter(|c| **c > 0).count();
        if used >= bound { continue }
        for k in prefix.len()..log.asked.len().min(horizon) {
            for c in 1..options(log.asked[k].0).len() {
                let mut p = prefix.clone();
                p.resize(k, 0);
                p.push(c);
                todo.push(p);
            }
        }
    }
    Ok(())
}
pub fn script(choices: Vec<usize>) -> impl FnMut(usize, Op) -> Answer + 'static {
    move |k, op| { let o = options(op); choices.get(k).map(|c| o[(*c).min(o.len() - 1)]).unwrap_or(Answer::Ok) }
}

// ------------------------------------------------------------------ saving

fn drawing(points: usize) -> Svg {
    let p: Vec<P> = (0..points).map(|k| ((k * 7919 % 1013) as f64 * 0.37, (k * 104_729 % 907) as f64 * 0.51)).collect();
    SvgPathInterpretation::new_with(500, 400, Given(vec![p])).interpret(&System::new(), &ProductionString::new()).expect("drawing")
}
const BEFORE: usize = 6;
fn prepare(p: &Path, kind: usize, doc: &str) {
    let _ = std::fs::remove_file(p);
    let w = |b: &[u8]| std::fs::write(p, b).unwrap_or_else(|_| engine_error("prepare"));
    match kind {
        0 => {}
        1 => w(b""),
        2 => w(doc.as_bytes()),
        3 => w(format!("{doc}{doc}tail").as_bytes()),
        4 => w(&doc.as_bytes()[..doc.len() / 2]),
        _ => w(&[0xff; 70_000]),
    }
}

fn judge_save(r: std::io::Result<()>, log: &Log, path: &Path, doc: &str, input: &dyn Fn() -> String) -> Case {
    let input = || format!("{}; {log}", input());
    match r {
        Ok(()) => {
            if log.failed() { return fail(input(), "saving reported success although the operating system reported a failure") }
            let have = std::fs::read(path).unwrap_or_default();
            if have != doc.as_bytes() { return fail(input(), format!("saving reported success but the file holds {} instead of {}", show(&String::from_utf8_lossy(&have)), show(doc))) }
        }
        Err(e) => if !log.failed() && !log.zero() && !log.other_failed() { return fail(input(), format!("saving failed ({e}) although every operation could be completed")) },
    }
    Ok(())
}

fn save_once(svg: &Svg, doc: &str, path: &Path, before: usize, answer: impl FnMut(usize, Op) -> Answer + 'static, ctx: &mut Ctx) -> Result<Log, Fail> {
    prepare(path, before, doc);
    let input = || format!("saving a document of {} bytes over {}", doc.len(), ["nothing", "an empty file", "the same document", "a longer file", "a shorter file", "70000 bytes of garbage"][before]);
    let (r, log) = calm(input, || under(answer, 4 * doc.len() + 1000, || svg.save_file(path)))?;
    judge_save(r, &log, path, doc, &input)?;
    ctx.trans(log.asked.len() as u64);
    ctx.extra(FAULTS, log.deviations());
    ctx.state(hash(&(doc.len(), before, format!("{log}"))));
    ctx.validated(1);
    Ok(log)
}

fn saves(tier: Tier) -> Family {
    let sizes = [0usize, 1, 5, 100, 150, 400, 3000, 20_000];
    let bound = tier.pick(4, 5);
    Family::new(format!("saving: every placement of up to {bound} unusual answers"), (sizes.len() * BEFORE) as u64, move |i, ctx| {
        let (n, before) = (sizes[i as usize / BEFORE], i as usize % BEFORE);
        let dir = Scratch::new("save");
        let path = dir.0.join("out.svg");
        let svg = if n == 0 { Svg::default() } else { drawing(n) };
        let doc = svg.to_svg();
        let bound = if n > 1000 { bound - 1 } else { bound };
        every_answer(bound, 9, |c| { ctx.beat(); save_once(&svg, &doc, &path, before, script(c), ctx) })?;
        ctx.sample(|| format!("{} bytes over kind {before}", doc.len()));
        Ok(())
    }).chunk(1).patience(60)
}

fn full_disk(tier: Tier) -> Family {
    let sizes: Vec<usize> = vec![0, 1, 10, tier.pick(60, 400)];
    Family::new("saving: the disk is full after every number of bytes", sizes.len() as u64 * 3, move |i, ctx| {
        let svg = if i < 3 { Svg::default() } else { drawing(sizes[i as usize / 3]) };
        let doc = svg.to_svg();
        let dir = Scratch::new("full");
        let path = dir.0.join("out.svg");
        for room in 0..doc.len() + 2 {
            // space may run out at once or after a partial write
            let piece = [usize::MAX, 1, 7][i as usize % 3];
            let mut left = room;
            save_once(&svg, &doc, &path, room % BEFORE, move |_, op| match op {
                Op::Write(n) => if left == 0 { Answer::Fail } else { let k = n.min(piece).min(left); left -= k; if k < n { Answer::Short(k) } else { Answer::Ok } },
                _ => Answer::Ok,
            }, ctx)?;
            ctx.beat();
        }
        Ok(())
    }).chunk(1).patience(60)
}

fn slow(tier: Tier) -> Family {
    let sizes: Vec<usize> = lengths(tier.pick(40, 200), tier.pick(300, 3000));
    Family::new("saving: every write cut short, every other one interrupted", sizes.len() as u64, move |i, ctx| {
        let svg = drawing(sizes[i as usize]);
        let doc = svg.to_svg();
        let dir = Scratch::new("slow");
        let path = dir.0.join("out.svg");
        for piece in [1usize, 2, 3, 100, 4095, 4096, 8191, 8192, 8193] {
            if doc.len() / piece > 3000 { continue }
            for every in [1usize, 2, 3] {
                save_once(&svg, &doc, &path, piece % BEFORE, move |k, op| match op {
                    Op::Write(_) if every > 1 && k % every == 0 => Answer::Interrupted,
                    Op::Write(n) if piece < n => Answer::Short(piece),
                    _ => Answer::Ok,
                }, ctx)?;
            }
            ctx.beat();
        }
        Ok(())
    }).patience(60)
}

fn histories(tier: Tier) -> Family {
    let docs = [0usize, 1, 40, 500];
    let s = Seqs::new(docs.len(), 2, tier.pick(3, 4));
    Family::new("every history of saves to one path, a fault in each", s.size(), move |i, ctx| {
        let v = s.get(i);
        let dir = Scratch::new("hist");
        let path = dir.0.join("out.svg");
        let all: Vec<(Svg, String)> = v.iter().map(|k| { let s = if docs[*k] == 0 { Svg::default() } else { drawing(docs[*k]) }; let d = s.to_svg(); (s, d) }).collect();
        // each save but the last gets one of these; the last runs undisturbed
        let faults: [fn(usize, Op) -> Answer; 4] = [|_, _| Answer::Ok, |k, _| if k == 1 { Answer::Fail } else { Answer::Ok },
            |k, o| match o { Op::Write(n) if k < 2 && n > 3 => Answer::Short(n - 3), Op::Write(_) => Answer::Fail, _ => Answer::Ok }, |k, _| if k == 0 { Answer::Fail } else { Answer::Ok }];
        for f in 0..4u64.pow(v.len() as u32 - 1) {
            let _ = std::fs::remove_file(&path);
            let d = digits(f, &vec![4; v.len() - 1]);
            for (k, (svg, doc)) in all.iter().enumerate() {
                let how = d.get(k).copied().unwrap_or(0);
                let input = || format!("save {k} of documents of {:?} bytes with faults {d:?} before", all.iter().map(|a| a.1.len()).collect::<Vec<_>>());
                let (r, log) = calm(input, || under(faults[how], 100_000, || svg.save_file(&path)))?;
                judge_save(r, &log, &path, doc, &input)?;
                ctx.extra(FAULTS, log.deviations());
            }
            ctx.done(hash(&(&v, f)), v.len() as u64);
        }
        Ok(())
    })
}

fn places() -> Family {
    Family::new("saving: unusual targets", 12, |i, ctx| {
        let dir = Scratch::new("place");
        let d = &dir.0;
        let svg = drawing(300);
        let doc = svg.to_svg();
        let x = |r: std::io::Result<()>| r.unwrap_or_else(|_| engine_error("prepare"));
        // the path, and whether it can work; saving by replacing a link may succeed where writing
        // through it cannot
        let (path, can): (PathBuf, Option<bool>) = match i {
            0 => (d.join("missing/out.svg"), Some(false)),
            1 => { x(std::fs::create_dir(d.join("dir.svg"))); (d.join("dir.svg"), Some(false)) }
            2 => (PathBuf::new(), Some(false)),
            3 => (d.join("a\0b"), Some(false)),
            4 => { x(std::os::unix::fs::symlink("/dev/full", d.join("full.svg"))); (d.join("full.svg"), None) }
            5 => { x(std::fs::write(d.join("file"), "x")); (d.join("file/out.svg"), Some(false)) }
            6 => (d.join("n".repeat(300)), Some(false)),
            7 => { x(std::fs::write(d.join("real"), "y".repeat(100_000))); x(std::os::unix::fs::symlink("real", d.join("link.svg"))); (d.join("link.svg"), Some(true)) }
            8 => { x(std::os::unix::fs::symlink("nowhere/x", d.join("dangling.svg"))); (d.join("dangling.svg"), None) }
            9 => (d.join("spaces and \u{1F33F} é.svg"), Some(true)),
            10 => { use std::os::unix::ffi::OsStrExt; (d.join(std::ffi::OsStr::from_bytes(b"bad\xff\xfe.svg")), Some(true)) }
            _ => { x(std::os::unix::fs::symlink("loop.svg", d.join("loop.svg"))); (d.join("loop.svg"), None) }
        };
        let input = || format!("saving to {path:?} (target kind {i})");
        match (calm(input, || svg.save_file(&path))?, can) {
            (Ok(()), Some(false)) => return fail(input(), "reported success, but cannot have worked"),
            (Err(e), Some(true)) => return fail(input(), format!("failed: {e}")),
            (Ok(()), _) => if !path.is_file() || std::fs::read(&path).ok().as_deref() != Some(doc.as_bytes()) { return fail(input(), "reported success, but the file does not hold the document") },
            (Err(_), _) => {}
        }
        ctx.done(i, 1);
        Ok(())
    })
}

// ------------------------------------------------------------------ reading

type Parsed = (AbopTurtleInterpretation, System, ProductionString);
/// What can be seen of the result.
fn seen(r: Result<Parsed, Error>) -> Option<(usize, f32, String, usize, usize, String)> {
    let (i, s, a) = r.ok()?;
    let next = s.derive(a.clone(), RunSettings::for_max_iterations(1)).map(|s| s.to_string()).unwrap_or_else(|_| "error".into());
    Some((i.n(), i.delta(), a.to_string(), s.symbol_len(), s.production_len(), next))
}

fn read_once(text: &[u8], path: &Path, answer: impl FnMut(usize, Op) -> Answer + 'static, ctx: &mut Ctx) -> Result<Log, Fail> {
    let input = || format!("reading {}", show(&String::from_utf8_lossy(text)));
    let (r, log) = calm(input, || under(answer, 4 * text.len() + 1000, || parse_file(path)))?;
    let want = std::str::from_utf8(text).ok().and_then(|t| seen(parse(t)));
    let want = if log.failed() { None } else { want };
    let got = seen(r);
    let same = match (&got, &want) { (Some(a), Some(b)) => a == b, (None, None) => true, (None, Some(_)) => log.other_failed(), (Some(_), None) => false };
    if !same { return fail(format!("{}; {log}", input()), format!("gave {got:?} instead of {want:?}")) }
    ctx.trans(log.asked.len() as u64);
    ctx.extra(FAULTS, log.deviations());
    ctx.state(hash(&(text, format!("{log}"))));
    ctx.validated(1);
    Ok(log)
}

fn texts() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "\n", "n = 3", "initial: X\nX -> Forward [ + X ] - X\n", "n = 4\r\ndelta = 22.5\r\ninitial: A\r\nA -> A B\r\n", "# é ∂ 🌿\n∂ = 7.5\ninitial: é\né -> é 🌿 é\n",
        "initial: X\nX ->", "initial: X", "X -> A\n", "initial: X\nX -> A\nm = 2", "initial: X\nX -> 2 A", "initial: X\nX -> A\nn = 12", "initial: X\nX -> A\n#", "\u{feff}initial: X\nX -> A", "initial: X\nX -> A\n\0",
    ].iter().map(|s| s.as_bytes().to_vec()).collect();
    // not text
    v.push(b"initial: X\nX -> A\xff\n".to_vec());
    v.push(b"initial: X\nX -> A\n# \xc3".to_vec());
    v.push(b"\xff\xfei\0".to_vec());
    v.push(b"# \xed\xa0\x80\ninitial: X\nX -> A".to_vec());
    // long ones: the last line decides
    for n in [40usize, 8150, 8185, 70_000] { v.push(format!("initial: X\n#{}\nX -> A B\nn = 7\n# é\ninitial: A X", "é".repeat(n / 2)).into_bytes()) }
    v.push([format!("initial: X\nX -> A\n#{}", "x".repeat(9000)).into_bytes(), b"\xff".to_vec()].concat());
    v
}

fn reads(tier: Tier) -> Family {
    let all = texts();
    let bound = tier.pick(4, 5);
    Family::new(format!("reading: every placement of up to {bound} unusual answers"), all.len() as u64, move |i, ctx| {
        let text = &all[i as usize];
        let dir = Scratch::new("read");
        let path = dir.0.join("a.plant");
        std::fs::write(&path, text).unwrap_or_else(|_| engine_error("prepare"));
        let bound = if text.len() > 1000 { bound - 1 } else { bound };
        every_answer(bound, 9, |c| { ctx.beat(); read_once(text, &path, script(c), ctx) })?;
        ctx.sample(|| show(&String::from_utf8_lossy(text)));
        Ok(())
    }).chunk(1).patience(60)
}

fn torn(tier: Tier) -> Family {
    let all: Vec<Vec<u8>> = texts().into_iter().filter(|t| t.len() < tier.pick(400, 10_000)).collect();
    Family::new("reading: pieces of every size, interruptions, failure after every byte, files cut at every byte", all.len() as u64, move |i, ctx| {
        let text = &all[i as usize];
        let dir = Scratch::new("torn");
        let path = dir.0.join("a.plant");
        std::fs::write(&path, text).unwrap_or_else(|_| engine_error("prepare"));
        for piece in 1..=text.len().min(64) {
            for every in [1usize, 2, 3] {
                read_once(text, &path, move |k, op| match op {
                    Op::Read(_) if every > 1 && k % every == 0 => Answer::Interrupted,
                    Op::Read(n) if piece < n => Answer::Short(piece),
                    _ => Answer::Ok,
                }, ctx)?;
            }
            ctx.beat();
        }
        for fail_at in 0..text.len().min(400) + 1 {
            let mut left = fail_at;
            read_once(text, &path, move |_, op| match op {
                Op::Read(n) => if left == 0 { Answer::Fail } else { let k = n.min(left); left -= k; if k < n { Answer::Short(k) } else { Answer::Ok } },
                _ => Answer::Ok,
            }, ctx)?;
            ctx.beat();
        }
        if text.len() < 400 { for cut in 0..text.len() {
            std::fs::write(&path, &text[..cut]).unwrap_or_else(|_| engine_error("prepare"));
            read_once(&text[..cut], &path, |_, _| Answer::Ok, ctx)?;
            read_once(&text[..cut], &path, |_, op| if let Op::Read(_) = op { Answer::Short(1) } else { Answer::Ok }, ctx)?;
        } }
        Ok(())
    }).chunk(1).patience(60)
}

fn sources() -> Family {
    Family::new("reading: unusual sources", 8, |i, ctx| {
        let dir = Scratch::new("source");
        let d = &dir.0;
        let x = |r: std::io::Result<()>| r.unwrap_or_else(|_| engine_error("prepare"));
        let good = "initial: X\nX -> A";
        let (path, can): (PathBuf, bool) = match i {
            0 => (d.join("missing"), false),
            1 => (d.clone(), false),
            2 => (PathBuf::new(), false),
            3 => (PathBuf::from("/dev/null"), false),
            4 => { x(std::fs::write(d.join("real"), good)); x(std::os::unix::fs::symlink("real", d.join("link"))); (d.join("link"), true) }
            5 => { x(std::os::unix::fs::symlink("nowhere", d.join("dangling"))); (d.join("dangling"), false) }
            6 => { use std::os::unix::ffi::OsStrExt; let p = d.join(std::ffi::OsStr::from_bytes(b"bad\xff\xfe.plant")); x(std::fs::write(&p, good)); (p, true) }
            _ => { x(std::fs::write(d.join("no extension at all é"), good)); (d.join("no extension at all é"), true) }
        };
        let input = || format!("reading {path:?} (source kind {i})");
        let r = seen(calm(input, || parse_file(&path))?);
        if r.is_some() != can || (can && r != seen(parse(good))) { return fail(input(), format!("gave {r:?}")) }
        ctx.done(i, 1);
        Ok(())
    })
}

/// A source that has no size and gives its text when it likes.
fn pipes() -> Family {
    let all: Vec<Vec<u8>> = texts().into_iter().filter(|t| !t.is_empty()).collect();
    const PIECES: [usize; 4] = [1 << 20, 1, 7, 4096];
    Family::new("reading: pipes that are written to in pieces of several sizes", (all.len() * PIECES.len()) as u64, move |i, ctx| {
        let (text, piece) = (&all[i as usize / PIECES.len()], PIECES[i as usize % PIECES.len()]);
        if text.len() / piece > 5000 { return Ok(()) }
        let dir = Scratch::new("pipe");
        let path = dir.0.join("a.plant");
        let name = { use std::os::unix::ffi::OsStrExt; std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap() };
        if unsafe { libc::mkfifo(name.as_ptr(), 0o600) } != 0 { engine_error("mkfifo") }
        let input = || format!("reading {} from a pipe, {piece} bytes at a time", show(&String::from_utf8_lossy(text)));
        let r = in_child(30, || {
            let (p, t) = (path.clone(), text.clone());
            std::thread::spawn(move || {
                use std::io::Write;
                let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(p) else { return };
                for c in t.chunks(piece) { if f.write_all(c).is_err() { return } std::thread::yield_now(); }
            });
            format!("{:?}", seen(parse_file(&path))).into_bytes()
        });
        let want = format!("{:?}", std::str::from_utf8(text).ok().and_then(|t| seen(parse(t))));
        match r {
            Ok(g) if g == want.as_bytes() => {}
            Ok(g) => return fail(input(), format!("gave {} instead of {want}", String::from_utf8_lossy(&g))),
            Err(m) => return fail(input(), m),
        }
        ctx.done(hash(&(text, piece)), 1);
        Ok(())
    }).patience(60)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![pipes(), saves(tier), full_disk(tier), slow(tier), histories(tier), places(), reads(tier), torn(tier), sources()] }

pub const PROPERTY: Property = Property {
    id: "C16", level: "model_checking",
    rule: "Every placement of up to the bound of unusual answers (failure, interruption, nothing written, short transfers) among the first nine file operations, then systematic families: the disk full after every number of bytes, every transfer cut to pieces of every size, files cut at every byte, unusual paths and pipes. Distinct states are distinct (input, answers) pairs.",
    assumptions: &["after a failed save nothing is asked of the file's content", "a write that reports zero bytes may be reported as an error", "answers are given at the level of std::fs: opening, reading, writing, renaming"],
    families,
};
