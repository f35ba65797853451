//! C29: the command's description of its alphabet, and how it takes command lines.
use crate::{bridge::*, engine::*, util::*};
use crate::props::c16::Scratch;
use crate::props::c17::{args, plain, put, says_why, run, run_in, run_to, show_args, tree, Ran, Sink, SINKS};
use rusty_systems::interpretation::abop::{abop_family, AbopTurtleInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use std::collections::BTreeMap;
use std::ffi::OsString;

/// Without -v, interpret prints nothing on standard output; with it, it says what it does.
fn loud(r: &Ran, verbose: bool) -> Option<String> {
    if !verbose && !r.out.is_empty() { return Some(format!("printed {} although it was not asked to", show(&String::from_utf8_lossy(&r.out)))) }
    if verbose && r.code == Some(0) && plain(&r.out).trim().is_empty() { return Some("printed nothing although it was asked to".into()) }
    None
}
fn crashed(r: &Ran) -> Option<String> {
    let e = String::from_utf8_lossy(&r.err);
    if let Some(s) = r.signal { return Some(format!("was killed by signal {s}")) }
    if e.contains("panicked at") || r.code == Some(101) || r.code == Some(134) { return Some(format!("crashed: {}", show(&e))) }
    None
}

/// Does the text list exactly the alphabet, the kinds apart?
fn lists(text: &str, input: &dyn Fn() -> String) -> Case {
    let f = abop_family();
    let mut kind = "";
    let mut got: BTreeMap<String, (String, String)> = BTreeMap::new();
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() { continue }
        let low = l.to_lowercase();
        if low.ends_with(':') && low.contains("terminal") { kind = "terminals"; continue }
        if low.ends_with(':') && low.contains("production") { kind = "productions"; continue }
        let (name, what) = l.split_once(char::is_whitespace).unwrap_or((l, ""));
        if got.insert(name.into(), (kind.into(), what.trim().into())).is_some() { return fail(input(), format!("lists {name} twice: {}", show(text))) }
    }
    let want: BTreeMap<String, (String, String)> = f.terminals().map(|s| ("terminals", s)).chain(f.productions().map(|s| ("productions", s)))
        .map(|(k, s)| (s.name.clone(), (k.to_string(), s.description.clone().unwrap_or_default()))).collect();
    if got != want { return fail(input(), format!("lists {got:?} instead of {want:?}")) }
    Ok(())
}
fn listings() -> Family {
    const LINES: [&[&str]; 6] = [&["describe"], &["-v", "describe"], &["describe", "-v"], &["--verbose", "describe"], &["describe", "--verbose"], &["-v", "describe", "--"]];
    const ENV: [&[(&str, &str)]; 9] = [&[], &[("NO_COLOR", "1")], &[("TERM", "dumb")], &[("TERM", "xterm-256color"), ("CLICOLOR_FORCE", "1")], &[("COLUMNS", "10")], &[("LANG", "C"), ("LC_ALL", "C")], &[("LC_ALL", "de_DE.UTF-8")], &[("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace")], &[("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent")]];
    Family::new("every way to ask for the description", (LINES.len() * ENV.len()) as u64, move |i, ctx| {
        let dir = Scratch::new("cli29");
        put(&dir.0.join("p.plant"), b"initial: A\nA -> Q\n");
        let before = tree(&dir.0);
        let (a, env) = (args(LINES[i as usize % LINES.len()]), ENV[i as usize / LINES.len()]);
        let input: &dyn Fn() -> String = &|| format!("lsystem {} with {env:?}", show_args(&a));
        let mut last = None;
        for _ in 0..3 {
            let r = run_in(&dir.0, &a, None, env);
            if let Some(m) = crashed(&r) { return fail(input(), m) }
            if r.code != Some(0) { return fail(input(), format!("exited with {:?}: {}", r.code, show(&String::from_utf8_lossy(&r.err)))) }
            lists(&plain(&r.out), input)?;
            if !r.err.is_empty() { return fail(input(), format!("printed an error: {}", show(&String::from_utf8_lossy(&r.err)))) }
            let mut lines: Vec<String> = plain(&r.out).lines().map(|l| l.trim_end().to_string()).collect();
            lines.sort();
            if last.get_or_insert_with(|| lines.clone()) != &lines { return fail(input(), "says something else the next time") }
        }
        if tree(&dir.0) != before { return fail(input(), "wrote a file") }
        ctx.done(i, 3);
        Ok(())
    }).chunk(4)
}

/// What the alphabet says is what the turtle does.
fn meanings() -> Family {
    // up to just under a half turn, and beyond it, where the turtle ends up on the other side
    const ANGLES: [f32; 13] = [90.0, 1.0, 22.5, 45.0, 60.0, 89.0, 91.0, 120.0, 179.0, 190.0, 225.0, 270.0, 350.0];
    Family::new("every symbol's description against what it does", 7 * ANGLES.len() as u64, |i, ctx| {
        let (i, angle) = (i % 7, ANGLES[i as usize / 7]);
        let sys = oops(AbopTurtleInterpretation::system(), "the turtle's alphabet")?;
        let f = abop_family();
        if f.symbols().count() != 7 || f.name() != "ABOP" { return fail("the turtle's family", "has another name or size") }
        let name = ["[", "]", "+", "-", "Forward", "Move", "X"][i as usize];
        let Some(d) = f.symbols().find(|s| s.name == name) else { return fail(name, "is not described") };
        let text = d.description.clone().unwrap_or_default().to_lowercase();
        let input = || format!("{name}, described as {text:?}");
        if text.trim().is_empty() { return fail(input(), "is not described") }
        if sys.get_symbol(name).is_none() { return fail(input(), "is not in the turtle's system") }
        let draw = |t: &str| -> Result<Vec<Vec<(f64, f64)>>, Fail> {
            let r = oops(AbopTurtleInterpretation::new(1, angle).interpret(&sys, &t.parse().unwrap()), t)?;
            Ok(r.iter().map(|p| p.iter().map(|p| (p.x(), p.y())).collect::<Vec<_>>()).filter(|p: &Vec<_>| p.len() > 1).collect())
        };
        let says = |words: &[&str]| words.iter().any(|w| text.split(|c: char| !c.is_alphanumeric()).any(|t| t == *w));
        match name {
            "+" | "-" => {
                let p = draw(&format!("{name} Forward"))?;
                let left = (p.len() == 1 && p[0][1].0 < 0.0) == (angle < 180.0);
                let (l, r) = (says(&["left", "counterclockwise", "anticlockwise"]), says(&["right", "clockwise"]));
                if (l, r) != (left, !left) { return fail(input(), format!("turns {}", if left { "left" } else { "right" })) }
            }
            "Forward" => if draw("Forward")?.len() != 1 || says(&["without"]) || !text.contains("draw") { return fail(input(), "draws a line") },
            "Move" => if !draw("Move")?.is_empty() || text.contains("draw") && !says(&["without", "not", "no"]) { return fail(input(), "draws nothing") },
            _ => {}
        }
        ctx.done(hash(&(i, angle.to_bits())), 1);
        Ok(())
    }).chunk(1)
}

const TOKENS: [&str; 20] = ["interpret", "describe", "good.plant", "bad.plant", "-v", "--verbose", "-o", "--output", "--width", "--height", "7", "0", "-1", "x", "--help", "-V", "bogus", "--", "--width=9", ""];
/// Every command line is either done, or refused with a word and without a trace.
fn lines(tier: Tier) -> Family {
    let s = Seqs::new(TOKENS.len(), 0, tier.pick(3, 4));
    Family::new("every short command line", s.size(), move |i, ctx| {
        let a: Vec<OsString> = s.get(i).into_iter().map(|k| TOKENS[k].into()).collect();
        judge(&a, ctx)
    }).chunk(40)
}
fn judge(a: &[OsString], ctx: &mut Ctx) -> Case {
    let dir = Scratch::new("cli29");
    put(&dir.0.join("good.plant"), b"initial: X\nX -> Forward X\n");
    put(&dir.0.join("bad.plant"), b"initial: X\nX Y -> Forward\n");
    let before = tree(&dir.0);
    let input = || format!("lsystem {}", show_args(a));
    let has = |t: &str| a.iter().any(|x| x == t);
    let r = run(&dir.0, a, None);
    if let Some(m) = crashed(&r) { return fail(input(), m) }
    let after = tree(&dir.0);
    let (ok, out, err) = (r.code == Some(0), plain(&r.out), String::from_utf8_lossy(&r.err).to_string());
    let told = has("--help") || has("-V");
    let wrote = after != before;
    if !ok {
        if wrote { return fail(input(), format!("exited with {:?} but wrote {:?}", r.code, after.keys().collect::<Vec<_>>())) }
        if !says_why(&r.err) { return fail(input(), format!("exited with {:?} without printing an error", r.code)) }
    } else if has("interpret") && wrote {
        // one new SVG, and nothing else
        let new: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).collect();
        if new.len() != 1 || before.keys().any(|k| !after.contains_key(k)) { return fail(input(), format!("wrote {:?}", new.iter().map(|n| n.0).collect::<Vec<_>>())) }
        let doc = String::from_utf8_lossy(new[0].1).to_string();
        if new[0].0.to_string_lossy().rsplit_once('.').map(|e| e.1.to_lowercase()).as_deref() != Some("svg") { return fail(input(), format!("wrote {:?}", new[0].0)) }
        if let Err(e) = crate::model::svg(&doc) { return fail(input(), format!("wrote {}: {e}", show(&doc))) }
        if !has("good.plant") { return fail(input(), "drew a plant it was not given") }
    } else {
        if wrote { return fail(input(), format!("wrote {:?}", after.keys().collect::<Vec<_>>())) }
        if told { if out.trim().is_empty() { return fail(input(), "said nothing") } }
        else if has("describe") { lists(&out, &input)? }
        else { return fail(input(), format!("exited with status 0 without doing anything; it printed {}", show(&out))) }
    }
    // what has to succeed
    let words: Vec<&str> = a.iter().map(|x| x.to_str().unwrap()).collect();
    let must = match &words[..] { ["describe"] | ["--help"] | ["-V"] | ["-v" | "--verbose", "describe"] | ["describe", "-v" | "--verbose"] | ["interpret", "good.plant"] | ["interpret", "good.plant", "-v" | "--verbose" | "--width=9"] | ["interpret", "-v" | "--verbose" | "--width=9", "good.plant"] | ["interpret" | "describe", "--help"] => true, _ => false };
    if must && !ok { return fail(input(), format!("exited with {:?}: {}", r.code, show(&err))) }
    // and what has to fail
    let never = !told && (!(has("interpret") || has("describe")) || has("interpret") && !has("describe") && !has("good.plant"));
    if never && ok { return fail(input(), "exited with status 0") }
    ctx.done(hash(a), 1);
    Ok(())
}
/// The options of interpret in every order.
fn orders() -> Family {
    let mut all: Vec<Vec<Vec<&str>>> = vec![vec![]];
    let parts: [&[&str]; 5] = [&["good.plant"], &["-o", "o.svg"], &["--width", "7"], &["--height", "30"], &["-v"]];
    for _ in 0..parts.len() { all = all.into_iter().flat_map(|v| parts.iter().filter(|p| !v.iter().any(|x| x == *p)).map(|p| [v.clone(), vec![p.to_vec()]].concat()).collect::<Vec<_>>()).collect() }
    // any of the options may be missing
    Family::new("every order and choice of options", all.len() as u64 * 16, move |i, ctx| {
        let (v, mask) = (&all[(i / 16) as usize], i % 16);
        let kept: Vec<&[&str]> = v.iter().map(|p| &p[..]).filter(|p| p[0] == "good.plant" || mask >> (["-o", "--width", "--height", "-v"].iter().position(|o| *o == p[0]).unwrap()) & 1 == 1).collect();
        let a = args(&std::iter::once("interpret").chain(kept.iter().flat_map(|p| p.iter().copied())).collect::<Vec<_>>());
        let dir = Scratch::new("cli29");
        put(&dir.0.join("good.plant"), b"n = 2\ndelta = 90\ninitial: X\nX -> Forward + X\n");
        let input = || format!("lsystem {}", show_args(&a));
        let r = run(&dir.0, &a, None);
        if let Some(m) = crashed(&r) { return fail(input(), m) }
        if r.code != Some(0) { return fail(input(), format!("exited with {:?}: {}", r.code, show(&String::from_utf8_lossy(&r.err)))) }
        let on = |k: u64| mask >> k & 1 == 1;
        if let Some(m) = loud(&r, on(3)) { return fail(input(), m) }
        let name = if on(0) { "o.svg" } else { "out.svg" };
        let doc = std::fs::read_to_string(dir.0.join(name)).unwrap_or_default();
        let (paths, end) = crate::model::turtle(&["Forward", "+", "Forward", "+", "X"].map(crate::model::cmd), 90.0).unwrap();
        crate::model::check_svg(&doc, &paths, Some(end), if on(1) { 7 } else { 500 }, if on(2) { 30 } else { 500 }, 1e-5).or_else(|e| fail(input(), format!("{e}; document {}", show(&doc))))?;
        if tree(&dir.0).len() != 2 { return fail(input(), "wrote other files") }
        ctx.done(hash(&a), 1);
        Ok(())
    }).chunk(60)
}

/// Each option means what it says whatever the other is, and the quiet way to fail does not exist.
fn sizes(tier: Tier) -> Family {
    const SIZES: [Option<usize>; 14] = [None, Some(1), Some(2), Some(99), Some(100), Some(255), Some(256), Some(499), Some(500), Some(501), Some(600), Some(1000), Some(1024), Some(4096)];
    let n = SIZES.len() as u64;
    Family::new("every pair of sizes", n * n * tier.pick(1, 2), move |i, ctx| {
        let (w, h, swap) = (SIZES[(i % n) as usize], SIZES[(i / n % n) as usize], i / n / n == 1);
        let mut o: Vec<Vec<String>> = vec![];
        if let Some(w) = w { o.push(vec!["--width".into(), w.to_string()]) }
        if let Some(h) = h { o.push(vec![format!("--height={h}")]) }
        if swap { o.reverse() }
        let a: Vec<OsString> = ["interpret".to_string(), "good.plant".into()].into_iter().chain(o.concat()).map(|s| s.into()).collect();
        let dir = Scratch::new("cli29");
        put(&dir.0.join("good.plant"), b"n = 2\ndelta = 90\ninitial: X\nX -> Forward + X\n");
        let input = || format!("lsystem {}", show_args(&a));
        let r = run(&dir.0, &a, None);
        if let Some(m) = crashed(&r) { return fail(input(), m) }
        if r.code != Some(0) { return fail(input(), format!("exited with {:?}: {}", r.code, show(&String::from_utf8_lossy(&r.err)))) }
        if let Some(m) = loud(&r, false) { return fail(input(), m) }
        let doc = std::fs::read_to_string(dir.0.join("out.svg")).unwrap_or_default();
        let (paths, end) = crate::model::turtle(&["Forward", "+", "Forward", "+", "X"].map(crate::model::cmd), 90.0).unwrap();
        crate::model::check_svg(&doc, &paths, Some(end), w.unwrap_or(500), h.unwrap_or(500), 1e-5).or_else(|e| fail(input(), format!("{e}; document {}", show(&doc))))?;
        ctx.done(hash(&(w, h, swap)), 1);
        Ok(())
    }).chunk(10)
}
/// Everything that can be wrong with a run of interpret, with every choice of the other options.
fn refusals() -> Family {
    const FILES: [&str; 10] = ["good.plant", "bad.plant", "none.plant", "dir", "binary.plant", "empty.plant", "open.plant", "number.plant", "chance.plant", "none/good.plant"];
    const OUTS: [Option<&str>; 6] = [None, Some("o.svg"), Some("none/o.svg"), Some("dir"), Some("good.plant/o.svg"), Some("dir/o.svg")];
    const MORE: [&[&str]; 6] = [&[], &["-v"], &["--verbose"], &["--width", "9"], &["--height", "9", "-v"], &["--width=7", "--height=7"]];
    let n = (FILES.len() * OUTS.len() * MORE.len()) as u64;
    Family::new("every way for a run to fail", n, move |i, ctx| {
        let i = i as usize;
        let (file, out, more) = (FILES[i % FILES.len()], OUTS[i / FILES.len() % OUTS.len()], MORE[i / FILES.len() / OUTS.len()]);
        let mut a = vec!["interpret", file];
        if let Some(o) = out { a.extend(["-o", o]) }
        a.extend(more);
        let a = args(&a);
        let dir = Scratch::new("cli29");
        std::fs::create_dir(dir.0.join("dir")).unwrap();
        for (n, b) in [("good.plant", &b"initial: X\nX -> Forward X\n"[..]), ("bad.plant", b"initial: X\nX Y -> Forward\n"), ("binary.plant", b"initial: X\nX -> \xff\xfe\n"), ("empty.plant", b""), ("open.plant", b"initial: X\nX -> [ Forward\n"), ("number.plant", b"n = many\ninitial: X\nX -> X\n"), ("chance.plant", b"initial: X\nX -> 0.7 X\nX -> 0.7 Forward\n")] { put(&dir.0.join(n), b) }
        let before = tree(&dir.0);
        let input = || format!("lsystem {}", show_args(&a));
        let r = run(&dir.0, &a, None);
        if let Some(m) = crashed(&r) { return fail(input(), m) }
        let after = tree(&dir.0);
        let (ok, err) = (r.code == Some(0), plain(&r.err));
        if let Some(m) = loud(&r, more.iter().any(|o| *o == "-v" || *o == "--verbose")) { return fail(input(), m) }
        // what can be drawn and where it can go: of an open branch nothing is said, and of a file with nothing to draw
        let fine = file == "good.plant" && [None, Some("o.svg"), Some("dir/o.svg")].contains(&out);
        let hopeless = !["good.plant", "open.plant", "empty.plant"].contains(&file) || [Some("none/o.svg"), Some("good.plant/o.svg")].contains(&out);
        if fine && !ok { return fail(input(), format!("exited with {:?}: {}", r.code, show(&err))) }
        if hopeless && ok { return fail(input(), "exited with status 0") }
        if ok {
            if after.len() != before.len() + 1 || before.iter().any(|(k, v)| after.get(k) != Some(v)) { return fail(input(), format!("wrote {:?}", after.keys().collect::<Vec<_>>())) }
        } else {
            if !says_why(&r.err) { return fail(input(), format!("exited with {:?} without printing an error", r.code)) }
            if after != before { return fail(input(), format!("exited with {:?} but wrote {:?}", r.code, after.keys().collect::<Vec<_>>())) }
        }
        ctx.done(i as u64, 1);
        Ok(())
    }).chunk(10)
}

/// The description is printed whole, or it is said that it could not be.
fn unprintable() -> Family {
    const LINES: [&[&str]; 4] = [&["describe"], &["-v", "describe"], &["describe", "--verbose"], &["describe", "-v"]];
    const ROOM: u64 = 700;
    let kinds = (SINKS.len() * SINKS.len()) as u64;
    Family::new("descriptions that cannot be printed, from every byte on", (kinds + ROOM) * LINES.len() as u64, move |i, ctx| {
        let (a, k) = (args(LINES[i as usize % LINES.len()]), i / LINES.len() as u64);
        let dir = Scratch::new("cli29");
        let file = dir.0.join("listing");
        let (out, err, room) = if k < kinds { (SINKS[k as usize % SINKS.len()].clone(), SINKS[k as usize / SINKS.len()].clone(), None) } else { (Sink::File(file.clone()), Sink::Kept, Some(k - kinds)) };
        let input = || format!("lsystem {} with standard output {}, standard error {err:?} and room for {room:?} bytes", show_args(&a), match &out { Sink::File(_) => "a file".into(), o => format!("{o:?}") });
        let r = run_to(&dir.0, &a, room, &[], &out, &err);
        if let Some(m) = crashed(&r) { return fail(input(), m) }
        let ok = r.code == Some(0);
        match &out {
            Sink::Kept => { if !ok { return fail(input(), format!("exited with {:?}", r.code)) } lists(&plain(&r.out), &input)? }
            Sink::File(f) => { let got = std::fs::read(f).unwrap_or_default(); if ok { lists(&plain(&got), &input)? } else if lists(&plain(&got), &input).is_ok() && (got.len() as u64) < room.unwrap_or(0) { return fail(input(), "printed everything but failed") } }
            // where a closed one leads to is open
            Sink::Closed => {}
            _ => if ok { return fail(input(), "exited with status 0 although the description could not be printed") },
        }
        if !ok && err == Sink::Kept && !says_why(&r.err) { return fail(input(), "printed no error") }
        if tree(&dir.0).keys().any(|n| *n != *"listing") { return fail(input(), "wrote a file") }
        ctx.extra(FAULTS, 1);
        ctx.done(i, 1);
        Ok(())
    }).chunk(20)
}
/// A refusal is one, also when it cannot be printed.
fn unheard() -> Family {
    const LINES: [&[&str]; 8] = [&[], &["interpret"], &["frobnicate"], &["interpret", "p.plant", "more"], &["interpret", "p.plant", "--bogus"], &["interpret", "p.plant", "--width"], &["interpret", "p.plant", "--height", "x"], &["describe", "all"]];
    let s = SINKS.len();
    Family::new("refusals that cannot be printed", (LINES.len() * s * s) as u64, move |i, ctx| {
        let i = i as usize;
        let (a, out, err) = (args(LINES[i / s / s]), &SINKS[i % s], &SINKS[i / s % s]);
        let dir = Scratch::new("cli29");
        put(&dir.0.join("p.plant"), b"initial: X\nX -> Forward X\n");
        let input = || format!("lsystem {} with standard output {out:?} and standard error {err:?}", show_args(&a));
        let r = run_to(&dir.0, &a, None, &[], out, err);
        if let Some(m) = crashed(&r) { return fail(input(), m) }
        if r.code == Some(0) { return fail(input(), "exited with status 0") }
        if *err == Sink::Kept && !says_why(&r.err) { return fail(input(), "printed no error") }
        if tree(&dir.0).len() != 1 { return fail(input(), "wrote a file") }
        ctx.extra(FAULTS, 1);
        ctx.done(i as u64, 1);
        Ok(())
    }).chunk(10)
}

pub fn families(tier: Tier) -> Vec<Family> { vec![listings(), meanings(), sizes(tier), refusals(), unprintable(), unheard(), orders(), lines(tier)] }

pub const PROPERTY: Property = Property {
    id: "C29", level: "model_checking",
    rule: "Every way to ask for the description in several environments; every symbol's description against the turtle at angles on both sides of a half turn; every pair of sizes; everything that can be wrong with the files of a run, with every choice of the other options; streams that are full, closed or read by nobody, and room for every number of bytes of the description; every order and choice of interpret's options; and every command line of up to the number of tokens, each run as a process in a directory of its own that is compared before and after. Distinct states are distinct command lines.",
    assumptions: &[],
    families,
};
