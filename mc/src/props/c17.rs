//! C17: the lsystem command, run as a process.
use crate::{engine::*, model::{self, Cmd}, util::*};
use crate::props::{c08::MRule, c15::{self, meaning, merged, Means, Plant, Want}, c16::Scratch};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::os::fd::FromRawFd;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Ran { pub code: Option<i32>, pub signal: Option<i32>, pub out: Vec<u8>, pub err: Vec<u8> }

pub fn run(dir: &Path, args: &[OsString], room: Option<u64>) -> Ran { run_in(dir, args, room, &[]) }
pub fn run_in(dir: &Path, args: &[OsString], room: Option<u64>, env: &[(&str, &str)]) -> Ran { run_to(dir, args, room, env, &Sink::Kept, &Sink::Kept) }

/// Where standard output and standard error go.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sink { Kept, Full, Gone, Closed, File(PathBuf) }
pub const SINKS: [Sink; 4] = [Sink::Kept, Sink::Full, Sink::Gone, Sink::Closed];
impl Sink {
    fn stdio(&self) -> Stdio {
        let open = |p: &Path| std::fs::OpenOptions::new().create(true).write(true).open(p).map(Stdio::from).unwrap_or_else(|_| engine_error("open a sink"));
        match self {
            Sink::Kept => Stdio::piped(),
            Sink::Full => open(Path::new("/dev/full")),
            Sink::Closed => Stdio::null(),
            Sink::File(p) => open(p),
            // a pipe that nobody reads
            Sink::Gone => { let mut fds = [0i32; 2]; if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { engine_error("pipe") } unsafe { libc::close(fds[0]); Stdio::from(std::os::fd::OwnedFd::from_raw_fd(fds[1])) } }
        }
    }
}
pub fn run_to(dir: &Path, args: &[OsString], room: Option<u64>, env: &[(&str, &str)], out: &Sink, err: &Sink) -> Ran {
    let bin = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())).join("target/cli/debug/lsystem");
    let mut c = Command::new(&bin);
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("TMPDIR", std::env::temp_dir()).env("HOME", dir).envs(env.iter().copied()).stdin(Stdio::null()).stdout(out.stdio()).stderr(err.stdio());
    let shut = [(out, 1), (err, 2)].map(|(s, n)| if *s == Sink::Closed { n } else { -1 });
    unsafe {
        c.pre_exec(move || {
            libc::alarm(60);
            for n in shut { if n >= 0 { libc::close(n); } }
            let r = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            if let Some(n) = room {
                // writes beyond this size fail
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 { return Err(std::io::Error::last_os_error()) }
            }
            Ok(())
        });
    }
    match c.output() {
        Ok(o) => Ran { code: o.status.code(), signal: o.status.signal(), out: o.stdout, err: o.stderr },
        Err(_) => engine_error("cannot run lsystem"),
    }
}
pub fn args(v: &[&str]) -> Vec<OsString> { v.iter().map(OsString::from).collect() }
pub fn show_args(a: &[OsString]) -> String { a.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ") }

/// All files below a directory and their contents.
pub fn tree(dir: &Path) -> BTreeMap<OsString, Vec<u8>> {
    fn walk(d: &Path, rel: &Path, m: &mut BTreeMap<OsString, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let r = rel.join(e.file_name());
            let Ok(t) = e.file_type() else { continue };
            if t.is_dir() { m.insert(r.clone().into(), b"(directory)".to_vec()); walk(&e.path(), &r, m) }
            else if t.is_symlink() { m.insert(r.into(), b"(link)".to_vec()); }
            else { m.insert(r.into(), std::fs::read(e.path()).unwrap_or_default()); }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, Path::new(""), &mut m);
    m
}

/// Every string the plant may derive to (None: the derivation fails), if there are few.
fn derived(p: &Plant) -> Option<BTreeSet<Option<Vec<String>>>> {
    let rules = merged(&p.rules);
    let over = |r: &MRule| r.bodies.len() > 1 && r.bodies.iter().filter_map(|b| b.0).map(|c| c as f64).sum::<f64>() > 1.0001;
    let mut now: BTreeSet<Option<Vec<String>>> = BTreeSet::from([Some(p.initial.clone())]);
    for _ in 0..p.n {
        let mut next = BTreeSet::new();
        for s in &now {
            let Some(s) = s else { next.insert(None); continue };
            let mut acc: Vec<Option<Vec<String>>> = vec![Some(vec![])];
            for i in 0..s.len() {
                let hit = rules.iter().find(|r| model::matches(&r.left, &r.target, &r.right, s, i));
                let outs: Vec<Option<&[String]>> = match hit { None => vec![Some(&s[i..i + 1])], Some(r) if over(r) => vec![None], Some(r) => r.bodies.iter().map(|b| Some(&b.1[..])).collect() };
                if let [one] = &outs[..] {
                    for a in acc.iter_mut() { match (a.as_mut(), one) { (Some(a), Some(o)) => a.extend_from_slice(o), _ => *a = None } }
                    if acc.iter().any(|a| a.is_none()) { acc.sort(); acc.dedup() }
                    continue
                }
                let mut more = vec![];
                for a in &acc { for o in &outs { more.push(match (a, o) { (Some(a), Some(o)) => Some([&a[..], o].concat()), _ => None }) } }
                more.sort(); more.dedup();
                acc = more;
                if acc.len() > 300 { return None }
            }
            next.extend(acc);
            if next.len() > 300 { return None }
        }
        if next == now { break }
        now = next;
    }
    Some(now)
}

fn right_svg(p: &Plant, w: usize, h: usize, doc: Option<&[u8]>) -> Result<(), String> {
    let Some(all) = derived(p) else { return Ok(()) };
    let mut why = String::new();
    for s in &all {
        let drawn = s.as_ref().and_then(|s| model::turtle(&s.iter().map(|n| model::cmd(n)).collect::<Vec<Cmd>>(), p.delta as f64));
        match (doc, drawn) {
            (None, None) => return Ok(()),
            (None, Some(_)) => why = "failed although the plant can be derived and drawn".into(),
            (Some(_), None) => why = "succeeded although the plant cannot be derived and drawn".into(),
            (Some(d), Some((paths, end))) => {
                let t = std::str::from_utf8(d).map_err(|e| e.to_string())?;
                match model::check_svg(t, &paths, Some(end), w, h, 1e-5) { Ok(()) => return Ok(()), Err(e) => why = format!("{e}; document {}", show(t)) }
            }
        }
    }
    Err(why)
}

/// The text without the sequences that colour it.
pub fn plain(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\u{1b}' { out.push(c); continue }
        if it.next() == Some('[') { for c in it.by_ref() { if ('@'..='~').contains(&c) { break } } }
    }
    out
}
/// Is there more than the word that something went wrong?
pub fn says_why(err: &[u8]) -> bool {
    plain(err).split(|c: char| !c.is_alphanumeric()).any(|w| !w.is_empty() && !w.eq_ignore_ascii_case("error"))
}

/// One run, judged. `target`: where the document must be, relative to the directory; None if it
/// cannot be written. `want`: what the plant file means.
struct Asked<'a> { dir: &'a Path, args: Vec<OsString>, want: &'a Want, size: Option<(usize, usize)>, targets: &'a [PathBuf], may_fail: bool, room: Option<u64> }
fn judged(a: &Asked, note: &str, ctx: &mut Ctx) -> Result<Ran, Fail> {
    let input = || format!("lsystem {}{}{note}", show_args(&a.args), if note.is_empty() { "" } else { " with " });
    let before = tree(a.dir);
    let r = run(a.dir, &a.args, a.room);
    ctx.trans(1);
    ctx.validated(1);
    let err = String::from_utf8_lossy(&r.err).to_string();
    if let Some(s) = r.signal { return fail(input(), if s == libc::SIGALRM { "did not finish within 60 s".into() } else { format!("was killed by signal {s}") }) }
    if err.contains("panicked at") || r.code == Some(101) || r.code == Some(134) { return fail(input(), format!("crashed: {}", show(&err))) }
    let ok = r.code == Some(0);
    if !ok && !says_why(&r.err) { return fail(input(), format!("exited with {:?} without printing an error", r.code)) }
    let after = tree(a.dir);
    let must_fail = matches!(a.want, Want::Error) || a.size.is_none() || a.targets.is_empty();
    if must_fail {
        if ok { return fail(input(), format!("exited with status 0 (files: {:?})", after.keys().collect::<Vec<_>>())) }
    } else if ok {
        let there: Vec<(&PathBuf, Vec<u8>)> = a.targets.iter().filter(|p| a.dir.join(p).is_file()).filter_map(|p| std::fs::read(a.dir.join(p)).ok().map(|d| (p, d))).collect();
        let mut why = format!("exited with status 0 but wrote none of {:?}; files: {:?}", a.targets, after.keys().collect::<Vec<_>>());
        let mut right = None;
        for (p, doc) in &there {
            let Want::Plant(pl) = a.want else { right = Some(p); break };
            let (w, h) = a.size.unwrap();
            match right_svg(pl, w, h, Some(doc)) { Ok(()) => { right = Some(p); break } Err(e) => why = format!("{}: {e}", p.display()) }
        }
        let Some(p) = right else { return fail(input(), why) };
        for (n, c) in &after { if !a.targets.iter().any(|t| t.as_os_str() == n) && before.get(n) != Some(c) && c != b"(link)" && !same_file(a.dir, n, p) { return fail(input(), format!("also wrote {n:?}")) } }
    } else if a.may_fail {
    } else if let Want::Plant(pl) = a.want {
        right_svg(pl, 1, 1, None).or_else(|e| fail(input(), format!("{e}: {}", show(&err))))?;
    }
    Ok(r)
}
fn same_file(dir: &Path, n: &OsStr, p: &Path) -> bool { std::fs::canonicalize(dir.join(n)).ok() == std::fs::canonicalize(dir.join(p)).ok() }

pub fn put(p: &Path, b: &[u8]) { if std::fs::write(p, b).is_err() { engine_error("prepare") } }

/// Runs with and without -v must agree on everything but what they print.
fn both(dir: &Path, base: &[OsString], want: &Want, size: Option<(usize, usize)>, targets: &[PathBuf], fixed: bool, may_fail: bool, note: &str, room: Option<u64>, reset: &dyn Fn(), ctx: &mut Ctx) -> Case {
    let mut seen: Vec<(Option<i32>, BTreeMap<OsString, Vec<u8>>)> = vec![];
    for v in 0..4 {
        let mut a = base.to_vec();
        match v { 0 => {} 1 => a.insert(0, "-v".into()), 2 => a.insert(1, "--verbose".into()), _ => a.push("-v".into()) }
        reset();
        let r = judged(&Asked { dir, args: a.clone(), want, size, targets, may_fail, room }, note, ctx)?;
        seen.push((r.code, tree(dir)));
        if fixed && (seen[v].0 != seen[0].0 || seen[v].1 != seen[0].1) { return fail(format!("lsystem {} {note}", show_args(&a)), format!("differs from the run without -v by more than what it prints: status {:?} against {:?}", seen[v].0, seen[0].0)) }
    }
    Ok(())
}

fn ini(s: &str) -> Means { Means::Initial(model::prod_string(s)) }
fn rule(l: &str, t: &str, r: &str, c: Option<f32>, b: &str) -> Means {
    let w = |s: &str| s.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
    Means::Rule(MRule { left: w(l), target: t.into(), right: w(r), bodies: vec![(c, w(b))] })
}
fn lines() -> Vec<(&'static str, Means)> {
    vec![
        ("initial: X", ini("X")), ("X -> Forward [ + X ] - X", rule("", "X", "", None, "Forward [ + X ] - X")), ("n = 3", Means::N(3)), ("delta = 90", Means::Delta(90.0)),
        ("# c", Means::Nothing), ("n=0", Means::N(0)), ("d = -15.5", Means::Delta(-15.5)), ("initial: A [ + Forward ] X", ini("A [ + Forward ] X")), ("initial: X ]", ini("X ]")),
        ("Forward -> Forward Move", rule("", "Forward", "", None, "Forward Move")), ("A < X -> ]", rule("A", "X", "", None, "]")), ("X ->", rule("", "X", "", None, "")), ("X -> 0.7 A", rule("", "X", "", Some(0.7), "A")), ("X -> 0.7 Forward + Forward", rule("", "X", "", Some(0.7), "Forward + Forward")),
        ("X -> 1.5 A", Means::Bad), ("m = 2", Means::Bad), ("n = x", Means::Bad), ("initial: A -> B", ini("A -> B")), ("Q", Means::Bad),
    ]
}

fn plants(tier: Tier) -> Family {
    let v = lines();
    let s = Seqs::new(v.len(), 0, tier.pick(3, 4));
    Family::new("every sequence of lines", s.size(), move |i, ctx| {
        let k = s.get(i);
        let want = meaning(k.iter().map(|k| &v[*k].1));
        let text = k.iter().map(|k| v[*k].0).collect::<Vec<_>>().join("\n");
        let dir = Scratch::new("cli");
        put(&dir.0.join("p.plant"), text.as_bytes());
        judged(&Asked { dir: &dir.0, args: args(&["interpret", "p.plant"]), want: &want, size: Some((500, 500)), targets: &["out.svg".into()], may_fail: false, room: None }, &format!("the file {}", show(&text)), ctx)?;
        ctx.state(hash(&k));
        ctx.sample(|| text.clone());
        Ok(())
    })
}

/// Plants, and whether they always have the same outcome.
fn curated() -> Vec<(String, Want, bool)> {
    let (v, fixed) = curated_fixed();
    v.into_iter().enumerate().map(|(i, (t, w))| (t, w, i < fixed)).collect()
}
fn curated_fixed() -> (Vec<(String, Want)>, usize) {
    let mk = |l: &[(&str, Means)]| (l.iter().map(|l| l.0).collect::<Vec<_>>().join("\n"), meaning(l.iter().map(|l| &l.1)));
    let mut v = vec![];
    for n in 0..6usize {
        let (t, w) = (format!("n = {n}"), Means::N(n));
        v.push(mk(&[(&t, w.clone()), ("delta = 22.5", Means::Delta(22.5)), ("initial: X", ini("X")), ("Forward -> Forward Forward", rule("", "Forward", "", None, "Forward Forward")), ("X -> Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X", rule("", "X", "", None, "Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X"))]));
        v.push(mk(&[(&t, w.clone()), ("delta = 60", Means::Delta(60.0)), ("initial: Forward + + Forward + + Forward", ini("Forward + + Forward + + Forward")), ("Forward -> Forward - Forward + + Forward - Forward", rule("", "Forward", "", None, "Forward - Forward + + Forward - Forward"))]));
        v.push(mk(&[(&t, w.clone()), ("initial: Forward X", ini("Forward X")), ("Forward ->", rule("", "Forward", "", None, "")), ("X -> X", rule("", "X", "", None, "X"))]));
        v.push(mk(&[(&t, w.clone()), ("d = 90", Means::Delta(90.0)), ("initial: A B", ini("A B")), ("A < B > A -> Move", rule("A", "B", "A", None, "Move")), ("B -> A B", rule("", "B", "", None, "A B")), ("A -> Forward", rule("", "A", "", None, "Forward"))]));
        v.push(mk(&[(&t, w.clone()), ("initial: ]", ini("]")), ("] -> X", rule("", "]", "", None, "X"))]));
        v.push(mk(&[(&t, w.clone()), ("initial: X", ini("X")), ("X -> ]", rule("", "X", "", None, "]"))]));
        // derivations that fail: at once, in the second iteration, behind a context, only in some place, never
        let over = |s: &'static str| [(format!("{s} -> 0.9 Forward"), rule("", s, "", Some(0.9), "Forward")), (format!("{s} -> 0.9 Move"), rule("", s, "", Some(0.9), "Move"))];
        let (x, a) = (over("X"), over("A"));
        v.push(mk(&[(&t, w.clone()), ("initial: X", ini("X")), (&x[0].0, x[0].1.clone()), (&x[1].0, x[1].1.clone())]));
        v.push(mk(&[(&t, w.clone()), ("initial: Forward B", ini("Forward B")), ("B -> A", rule("", "B", "", None, "A")), (&a[0].0, a[0].1.clone()), (&a[1].0, a[1].1.clone())]));
        v.push(mk(&[(&t, w.clone()), ("initial: Forward X", ini("Forward X")), ("X -> Forward + X", rule("", "X", "", None, "Forward + X")), (&a[0].0, a[0].1.clone()), (&a[1].0, a[1].1.clone())]));
        v.push(mk(&[(&t, w.clone()), ("initial: X X", ini("X X")), ("X < X -> 0.6 X", rule("X", "X", "", Some(0.6), "X")), ("X < X -> 0.6 Forward", rule("X", "X", "", Some(0.6), "Forward"))]));
        v.push(mk(&[(&t, w.clone()), ("initial: X", ini("X")), ("X -> B", rule("", "X", "", None, "B")), ("B -> C", rule("", "B", "", None, "C")), ("C -> ]", rule("", "C", "", None, "]"))]));
    }
    // many iterations
    for n in [6usize, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 999, 1000, 1001, 2049] {
        let (t, w) = (format!("n = {n}"), Means::N(n));
        if n < 150 { v.push(mk(&[(&t, w.clone()), ("delta = 7", Means::Delta(7.0)), ("initial: X", ini("X")), ("X -> X + Forward", rule("", "X", "", None, "X + Forward"))])) }
        v.push(mk(&[(&t, w.clone()), ("delta = 31", Means::Delta(31.0)), ("initial: A Forward", ini("A Forward")), ("A -> B", rule("", "A", "", None, "B")), ("B -> Forward", rule("", "B", "", None, "Forward")), ("Forward -> + A", rule("", "Forward", "", None, "+ A")), ("+ ->", rule("", "+", "", None, ""))]));
        v.push(mk(&[(&t, w.clone()), ("initial: Forward X Move", ini("Forward X Move")), ("Forward -> Move", rule("", "Forward", "", None, "Move")), ("Move -> Forward", rule("", "Move", "", None, "Forward"))]));
    }
    // angles no turtle can turn by
    for t in ["delta = nan", "d = inf", "D=-infinity", "∂ = 1e39"] { v.push(mk(&[(t, Means::Bad), ("initial: X", ini("X")), ("X -> + Forward", rule("", "X", "", None, "+ Forward"))])) }
    // the plants of the documentation, comments and all
    v.push(("# This describes plant 5 in fig 1.24 of the Algorithmic Beauty of Plants (pg 25)\n\nn = 6\ndelta = 22.5\n\n# the initial string\ninitial: X\n\n# The productions\nForward -> Forward Forward\nX -> Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X".into(),
        meaning([Means::N(6), Means::Delta(22.5), ini("X"), rule("", "Forward", "", None, "Forward Forward"), rule("", "X", "", None, "Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X")].iter())));
    v.push(("# From figure 1.6c on page 8 of the Algorithmic Beauty of Plants\n\nn = 2\ndelta = 90\n\ninitial: Forward - Forward - Forward - Forward\n\nForward  -> Forward - Forward + Forward + Forward Forward - Forward - Forward + Forward".into(),
        meaning([Means::N(2), Means::Delta(90.0), ini("Forward - Forward - Forward - Forward"), rule("", "Forward", "", None, "Forward - Forward + Forward + Forward Forward - Forward - Forward + Forward")].iter())));
    v.push(("# From figure 1.8, page 9, of the Algorithmic Beauty of Plants\n\nn = 2\ndelta = 90\n\ninitial: Forward + Forward + Forward + Forward\n\nForward -> Forward + Move - Forward Forward + Forward + Forward Forward + Forward Move + Forward Forward - Move + Forward Forward - Forward - Forward Forward - Forward Move - Forward Forward Forward\nMove -> Move Move Move Move Move Move".into(),
        meaning([Means::N(2), Means::Delta(90.0), ini("Forward + Forward + Forward + Forward"), rule("", "Forward", "", None, "Forward + Move - Forward Forward + Forward + Forward Forward + Forward Move + Forward Forward - Move + Forward Forward - Forward - Forward Forward - Forward Move - Forward Forward Forward"), rule("", "Move", "", None, "Move Move Move Move Move Move")].iter())));
    let fixed = v.len();
    for n in 0..4usize {
        // several outcomes, and outcomes of which some cannot be drawn
        let (t, w) = (format!("n = {n}"), Means::N(n));
        v.push(mk(&[(&t, w.clone()), ("initial: X", ini("X")), ("X -> 0.5 Forward X", rule("", "X", "", Some(0.5), "Forward X")), ("X -> + X", rule("", "X", "", None, "+ X"))]));
        v.push(mk(&[(&t, w.clone()), ("initial: X X", ini("X X")), ("X -> 0.5 Forward", rule("", "X", "", Some(0.5), "Forward")), ("X -> 0.5 ]", rule("", "X", "", Some(0.5), "]"))]));
        v.push(mk(&[(&t, w.clone()), ("initial: X", ini("X")), ("X -> 0.1 Forward", rule("", "X", "", Some(0.1), "Forward")), ("X -> 0.2 Move X", rule("", "X", "", Some(0.2), "Move X"))]));
    }
    (v, fixed)
}

fn all_plants() -> Family {
    let v = curated();
    Family::new("plants, derived for every small number of iterations, on several canvases, with and without -v", v.len() as u64 * 4, move |i, ctx| {
        let (text, want, fixed) = &v[i as usize / 4];
        let (w, h) = [(500usize, 500usize), (1, 1), (640, 37), (0, 9)][i as usize % 4];
        let dir = Scratch::new("cli");
        let d = dir.0.clone();
        let reset = || { let _ = std::fs::remove_file(d.join("out.svg")); };
        put(&dir.0.join("p.plant"), text.as_bytes());
        let (ws, hs) = (w.to_string(), h.to_string());
        let mut a = vec!["interpret", "p.plant"];
        if w != 500 || i / 4 % 2 == 1 { a.extend(["--width", &ws, "--height", &hs]) }
        both(&dir.0, &args(&a), want, Some((w, h)), &["out.svg".into()], *fixed, false, &format!("the file {}", show(text)), None, &reset, ctx)?;
        ctx.state(hash(&i));
        Ok(())
    })
}

const GOOD: &str = "n = 2\ndelta = 30\ninitial: X\nX -> Forward [ + X ] - X";
fn good() -> Want { meaning([Means::N(2), Means::Delta(30.0), ini("X"), rule("", "X", "", None, "Forward [ + X ] - X")].iter()) }
const BAD: &str = "n = 2\ninitial: X";

const LONG: &[u8] = &[b'n'; 300];

fn outputs() -> Family {
    // what is asked for, and where it may end up (nowhere: it cannot be written)
    let o: Vec<(&[u8], &[&[u8]])> = vec![
        (b"x.svg", &[b"x.svg"]), (b"x", &[b"x.svg"]), (b"x.txt", &[b"x.svg"]), (b"X.SVG", &[b"X.SVG", b"X.svg"]), (b"x.sVg", &[b"x.sVg", b"x.svg"]), (b"a.b.c", &[b"a.b.svg"]), (b"a.svg.b", &[b"a.svg.svg"]), (b"a.b.svg", &[b"a.b.svg"]),
        (b"x.", &[b"x.svg"]), (b"svg", &[b"svg.svg"]), (b"sub/x.svg", &[b"sub/x.svg"]), (b"sub/x", &[b"sub/x.svg"]), (b"./x.svg", &[b"x.svg"]), (b"sub/../y.png", &[b"y.svg"]), (b"sub.d/x", &[b"sub.d/x.svg"]),
        (b"x.svgz", &[b"x.svg"]), (b"x.sv", &[b"x.svg"]), (b"xsvg", &[b"xsvg.svg"]), (b"\xc3\xa9 \xf0\x9f\x8c\xbf.svg", &[b"\xc3\xa9 \xf0\x9f\x8c\xbf.svg"]), (b"\xc3\xa9 \xf0\x9f\x8c\xbf.png", &[b"\xc3\xa9 \xf0\x9f\x8c\xbf.svg"]), (b"bad\xff.svg", &[b"bad\xff.svg"]), (b"bad\xff", &[b"bad\xff.svg"]), (b"x.\xff", &[b"x.svg"]), (b".svg", &[b".svg", b".svg.svg"]),
        (b"a.mp4", &[b"a.svg"]), (b"plant.v2", &[b"plant.svg"]), (b"x.1", &[b"x.svg"]), (b"x.svg2", &[b"x.svg"]), (b"x.tar.gz", &[b"x.tar.svg"]), (b"x.svg.bak", &[b"x.svg.svg"]), (b"x y.p q", &[b"x y.svg"]), (b"x.\xc3\xa9", &[b"x.svg"]), (b"x.-", &[b"x.svg"]), (b"x.verylongextension", &[b"x.svg"]), (b"1.5", &[b"1.svg"]), (b"x.PNG", &[b"x.svg"]), (b"x.xml", &[b"x.svg"]), (b"x.html", &[b"x.svg"]), (b"sub.d/x.png", &[b"sub.d/x.svg"]),
        (b"-x.svg", &[b"-x.svg"]), (b"a b.svg", &[b"a b.svg"]),
        // names that mean something elsewhere
        (b"-", &[b"-.svg"]), (b"~/x.svg", &[b"~/x.svg"]), (b"~", &[b"~.svg"]), (b"$HOME.svg", &[b"$HOME.svg"]), (b"%d.svg", &[b"%d.svg"]), (b"*.svg", &[b"*.svg"]), (b"{}.svg", &[b"{}.svg"]), (b"file:x.svg", &[b"file:x.svg"]), (b"a\nb.svg", &[b"a\nb.svg"]), (b"a\\b.svg", &[b"a\\b.svg"]), (b" x.svg ", &[b" x.svg"]), (b"\"x\".svg", &[b"\"x\".svg"]), (b"stdout", &[b"stdout.svg"]), (b"null.svg", &[b"null.svg"]),
        (b"missing/x.svg", &[]), (b"taken.svg", &[]), (b"taken", &[]), (b"full.svg", &[b"full.svg"]), (b"full", &[b"full.svg"]), (b"p.plant/x.svg", &[]), (LONG, &[]), (b"link.svg", &[b"link.svg"]), (b"dangling.svg", &[b"dangling.svg"]),
    ];
    Family::new("every kind of output path, over every earlier content", o.len() as u64 * 3 * 2 * 3, move |i, ctx| {
        let k = digits(i, &[o.len() as u64, 3, 2, 3]);
        let (ask, targets) = o[k[0]];
        // links that cannot be written through may be replaced
        let link = &[&b"full.svg"[..], b"full", b"dangling.svg"].contains(&ask);
        let dir = Scratch::new("cli");
        let d = dir.0.clone();
        let os = |b: &[u8]| OsStr::from_bytes(b).to_os_string();
        let paths: Vec<PathBuf> = targets.iter().map(|t| PathBuf::from(os(t))).collect();
        let reset = || {
            let _ = std::fs::remove_dir_all(&d);
            for s in ["", "sub", "sub.d", "taken.svg", "~"] { if std::fs::create_dir_all(d.join(s)).is_err() { engine_error("prepare") } }
            let _ = std::os::unix::fs::symlink("/dev/full", d.join("full.svg"));
            let _ = std::os::unix::fs::symlink("behind", d.join("link.svg"));
            let _ = std::os::unix::fs::symlink("nowhere/behind", d.join("dangling.svg"));
            put(&d.join("p.plant"), if k[2] == 0 { GOOD } else { BAD }.as_bytes());
            if let (Some(p), false) = (paths.first(), link) { match k[1] { 1 => put(&d.join(p), &[b'z'; 50_000]), 2 => put(&d.join(p), b"q"), _ => {} } }
        };
        reset();
        let mut a = args(&["interpret", "p.plant"]);
        let mut eq = os(if k[3] == 1 { b"--output=" } else { b"-o" });
        eq.push(os(ask));
        match k[3] { 0 => { if ask.starts_with(b"-") { a.push(eq) } else { a.push("--output".into()); a.push(os(ask)) } } 1 => a.insert(1, eq), _ => a.push(eq) }
        let want = if k[2] == 0 { good() } else { Want::Error };
        both(&d, &a, &want, Some((500, 500)), &paths, true, *link, &format!("earlier content {}", k[1]), None, &reset, ctx)?;
        ctx.state(hash(&i));
        Ok(())
    })
}

fn sizes() -> Family {
    let ok = ["0", "1", "2", "37", "499", "500", "501", "4096", "100000", "4294967296", "00012"];
    let bad = ["", "-1", "x", "1.5", "1e3", " 5", "5 ", "18446744073709551616", "0x10", "1,000"];
    let n = (ok.len() + bad.len() + 1) as u64;
    Family::new("every canvas argument", n * n, move |i, ctx| {
        let d = digits(i, &[n, n]);
        let arg = |k: usize| -> (Option<&str>, Option<usize>) { if k < ok.len() { (Some(ok[k]), ok[k].parse().ok()) } else if k < ok.len() + bad.len() { (Some(bad[k - ok.len()]), None) } else { (None, Some(500)) } };
        let ((wa, w), (ha, h)) = (arg(d[0]), arg(d[1]));
        let dir = Scratch::new("cli");
        put(&dir.0.join("p.plant"), GOOD.as_bytes());
        let (ow, oh) = (wa.map(|w| format!("--width={w}")), ha.map(|h| format!("--height={h}")));
        let mut a = vec!["interpret"];
        if i % 2 == 0 { a.push("p.plant") }
        if let Some(w) = &ow { a.push(w) }
        if let Some(h) = &oh { a.push(h) }
        if i % 2 == 1 { a.push("p.plant") }
        judged(&Asked { dir: &dir.0, args: args(&a), want: &good(), size: w.zip(h), targets: &["out.svg".into()], may_fail: false, room: None }, "", ctx)?;
        ctx.state(hash(&i));
        Ok(())
    })
}

fn sources() -> Family {
    Family::new("every kind of input path", 30, move |i, ctx| {
        let dir = Scratch::new("cli");
        let d = dir.0.clone();
        let bytes = |b: &[u8]| OsStr::from_bytes(b).to_os_string();
        let good_at = |n: &OsStr| { put(&d.join(n), GOOD.as_bytes()); (n.to_os_string(), good()) };
        let (name, want): (OsString, Want) = match i {
            0 => ("missing.plant".into(), Want::Error),
            1 => { let _ = std::fs::create_dir(d.join("dir")); ("dir".into(), Want::Error) }
            2 => ("".into(), Want::Error),
            3 => ("/dev/null".into(), Want::Error),
            4 => { put(&d.join("p"), b"initial: X\nX -> A\xff"); ("p".into(), Want::Error) }
            5 => { let _ = std::os::unix::fs::symlink("loop", d.join("loop")); ("loop".into(), Want::Error) }
            6 => { put(&d.join("p"), GOOD.as_bytes()); let _ = std::os::unix::fs::symlink("p", d.join("link")); ("link".into(), good()) }
            7 => good_at(OsStr::new("no extension é 🌿")),
            8 => good_at(&bytes(b"bad\xff\xfename.plant")),
            9 => { put(&d.join("out.svg"), GOOD.as_bytes()); ("out.svg".into(), good()) }
            10 => { put(&d.join("p"), BAD.as_bytes()); ("p".into(), Want::Error) }
            11 => { put(&d.join("p"), b""); ("p".into(), Want::Error) }
            12 => { put(&d.join("p"), GOOD.replace('\n', "\r\n").as_bytes()); ("p".into(), good()) }
            13 => good_at(&bytes(b"\xc3.plant")),
            14 => good_at(OsStr::new("-")),
            15 => { let _ = std::fs::create_dir(d.join("~")); good_at(OsStr::new("~/p")) }
            16 => ("-".into(), Want::Error),
            _ => { let n = ["~", "$HOME", "*", "%s", "{}", "@p", "file:p", " p ", "a\nb", "\\", "stdin", "X.SVG", "p.plant "][i as usize - 17]; put(&d.join("p"), BAD.as_bytes()); good_at(OsStr::new(n)) }
        };
        let reset = || { if i == 9 { put(&d.join("out.svg"), GOOD.as_bytes()) } else { let _ = std::fs::remove_file(d.join("out.svg")); } };
        both(&d, &[OsString::from("interpret"), name], &want, Some((500, 500)), &["out.svg".into()], true, false, &format!("input kind {i}"), None, &reset, ctx)?;
        ctx.state(i);
        Ok(())
    })
}

fn full_disk(tier: Tier) -> Family {
    Family::new("the output cannot grow beyond every number of bytes", tier.pick(500, 900), move |i, ctx| {
        let dir = Scratch::new("cli");
        put(&dir.0.join("p.plant"), GOOD.as_bytes());
        let a = args(&["interpret", "p.plant"]);
        let r = run(&dir.0, &a, None);
        let whole = std::fs::read(dir.0.join("out.svg")).unwrap_or_default();
        if r.code != Some(0) || whole.is_empty() { return fail(format!("lsystem {}", show_args(&a)), "failed on a good plant") }
        // every size around the document's, in steps
        let step = whole.len() as u64 / 400 + 1;
        let room = if i < 450 { i * step } else { whole.len() as u64 + 20 - (i - 450).min(40) };
        let d = dir.0.clone();
        let reset = || { let _ = std::fs::remove_file(d.join("out.svg")); };
        let targets: &[PathBuf] = if room < whole.len() as u64 { &[] } else { &["out.svg".into()] };
        reset();
        judged(&Asked { dir: &d, args: a, want: &good(), size: Some((500, 500)), targets, may_fail: false, room: Some(room) }, &format!("room for {room} bytes"), ctx)?;
        ctx.extra(FAULTS, 1);
        ctx.state(hash(&room));
        Ok(())
    })
}

fn usage() -> Family {
    let v: Vec<&[&str]> = vec![&[], &["interpret"], &["frobnicate"], &["interpret", "p.plant", "more"], &["interpret", "p.plant", "--bogus"], &["interpret", "p.plant", "-o"], &["interpret", "p.plant", "--width"], &["interpret", "p.plant", "--height", "--width", "3"], &["describe"], &["-v", "describe"], &["describe", "-v"]];
    Family::new("wrong usage, and describe", v.len() as u64, move |i, ctx| {
        let dir = Scratch::new("cli");
        put(&dir.0.join("p.plant"), GOOD.as_bytes());
        let a = args(v[i as usize]);
        let input = format!("lsystem {}", show_args(&a));
        let r = run(&dir.0, &a, None);
        let describe = v[i as usize].contains(&"describe");
        if r.signal.is_some() || String::from_utf8_lossy(&r.err).contains("panicked at") || r.code == Some(101) { return fail(input, "crashed") }
        if (r.code == Some(0)) != describe { return fail(input, format!("exited with {:?}", r.code)) }
        if !describe && !says_why(&r.err) { return fail(input, "printed no error") }
        if describe { let t = String::from_utf8_lossy(&r.out).to_string(); for n in c15::TURTLE { if !t.split_whitespace().any(|w| w == n) { return fail(input, format!("does not describe {n}")) } } }
        if tree(&dir.0).len() != 1 { return fail(input, "wrote a file") }
        ctx.done(i, 1);
        Ok(())
    })
}

/// What cannot be printed changes nothing else.
fn unprintable() -> Family {
    const FILES: [&str; 5] = ["good.plant", "bad.plant", "none.plant", "pop.plant", "over.plant"];
    const OUTS: [Option<&str>; 3] = [None, Some("x.png"), Some("none/o.svg")];
    const LOUD: [&[&str]; 3] = [&[], &["-v"], &["--verbose"]];
    let n = [SINKS.len() as u64, SINKS.len() as u64, FILES.len() as u64, OUTS.len() as u64, LOUD.len() as u64];
    Family::new("standard output and error that cannot be written", n.iter().product(), move |i, ctx| {
        let k = digits(i, &n);
        let (out, err, file, to) = (&SINKS[k[0]], &SINKS[k[1]], FILES[k[2]], OUTS[k[3]]);
        let mut a = vec!["interpret", file];
        if let Some(o) = to { a.extend(["-o", o]) }
        a.extend(LOUD[k[4]]);
        let a = args(&a);
        let input = || format!("lsystem {} with standard output {out:?} and standard error {err:?}", show_args(&a));
        let dir = Scratch::new("cli");
        for (n, b) in [("good.plant", GOOD), ("bad.plant", BAD), ("pop.plant", "initial: X\nX -> ] Forward\n"), ("over.plant", "initial: X\nX -> 0.7 X\nX -> 0.7 Forward\n")] { put(&dir.0.join(n), b.as_bytes()) }
        let before = tree(&dir.0);
        let r = run_to(&dir.0, &a, None, &[], out, err);
        if let Some(s) = r.signal { return fail(input(), format!("was killed by signal {s}")) }
        if String::from_utf8_lossy(&r.err).contains("panicked at") || r.code == Some(101) || r.code == Some(134) { return fail(input(), format!("crashed: {}", show(&String::from_utf8_lossy(&r.err)))) }
        let ok = r.code == Some(0);
        let mut after = tree(&dir.0);
        if file == "good.plant" && to != Some("none/o.svg") {
            if !ok { return fail(input(), format!("exited with {:?}", r.code)) }
            let Some(doc) = after.remove(OsStr::new(if to.is_none() { "out.svg" } else { "x.svg" })) else { return fail(input(), "exited with status 0 but wrote nothing") };
            if let Want::Plant(p) = good() { right_svg(&p, 500, 500, Some(&doc)).or_else(|e| fail(input(), e))? }
        } else {
            if ok { return fail(input(), "exited with status 0") }
            if *err == Sink::Kept && !says_why(&r.err) { return fail(input(), "printed no error") }
        }
        if after != before { return fail(input(), format!("wrote {:?}", after.keys().collect::<Vec<_>>())) }
        ctx.extra(FAULTS, 1);
        ctx.done(i, 1);
        Ok(())
    }).chunk(10)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![plants(tier), all_plants(), outputs(), sizes(), sources(), full_disk(tier), usage(), unprintable()] }

pub const PROPERTY: Property = Property {
    id: "C17", level: "model_checking",
    rule: "The real binary, run once per case in a directory of its own: every sequence of line kinds up to the depth, every kind of input and output path over every earlier content, every canvas argument, the verbose flag at every place, a limit on the output's size at every number of bytes, and standard output and error that are full, closed or read by nobody. The document is compared with a reference reading, derivation, drawing and placement. Distinct states are distinct command lines and files.",
    assumptions: &["the outcome of a derivation fits in memory"],
    families,
};
