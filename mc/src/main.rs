mod util;
mod engine;
mod explore;
mod lin;
mod bridge;
mod draws;
#[allow(dead_code)]
mod model;
mod props;

use engine::*;
use std::time::Duration;

/// Seeds of hash maps (and any other request for entropy) are the engine's choice.
pub static ENTROPY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ENTROPY.load(std::sync::atomic::Ordering::Relaxed) ^ 0x5bd1_e995_9d1b_58d3;
    for i in 0..len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (s >> 33) as u8;
    }
    len as isize
}

fn field(json: &str, key: &str) -> Option<String> {
    let p = json.find(&format!("\"{key}\":"))? + key.len() + 3;
    let r = json[p..].trim_start();
    if let Some(r) = r.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'),
                    'u' => { let h: String = it.by_ref().take(4).collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?) }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else {
        Some(r.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

fn main() {
    util::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--list") {
        for p in props::all() { println!("{}", p.id) }
        return;
    }
    let Some(id) = args.first() else { eprintln!("usage: mc ID [--replay FILE]"); std::process::exit(2) };
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else { eprintln!("unknown property {id}"); std::process::exit(2) };
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let replay = args.iter().position(|a| a == "--replay").map(|i| std::fs::read_to_string(&args[i + 1]).expect("replay file"));
    let tier_name = replay.as_ref().and_then(|r| field(r, "tier")).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
    let tier = if tier_name == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let wall = Duration::from_secs(std::env::var("MC_WALL").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == Tier::Quick { 300 } else { 760 }));
    let known: &'static [String] = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} "))).map(|l| l.split(" :: ").next().unwrap().to_string()).collect::<Vec<_>>().leak();
    let fams = (p.families)(tier);
    let only = replay.as_ref().map(|r| {
        let name = field(r, "family").expect("family");
        let fi = fams.iter().position(|f| f.name == name).expect("family of the replay file");
        let ix: u64 = field(r, "index").and_then(|v| v.parse().ok()).expect("index");
        let st: u64 = field(r, "chunk_start").and_then(|v| v.parse().ok()).unwrap_or(ix);
        (fi, st, ix + 1)
    });
    let (rep, ev) = run(&p, tier, wall, only, known);
    let show = std::env::var_os("MC_VERBOSE").is_some();
    if show { for f in &rep.per_family { eprintln!("  {:<60} {:>9}/{:<9} at {:.1}s", f.0, f.2, f.1, f.3) } }
    if replay.is_none() {
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        std::fs::write(format!("{root}/evidence/{id}.json"), evidence_json(&p, tier, seed, &rep, &ev)).expect("evidence");
    }
    println!("{id}: {} cases, {} distinct states, {} transitions, {} traces checked, {:.1} s{}", ev.evaluations, ev.states, ev.transitions, ev.validated, ev.wall, if rep.complete { ", complete" } else { "" });
    for (n, v) in &ev.extra { println!("  {n}: {v}") }
    if let Some(f) = rep.found {
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        let path = format!("{root}/replays/{id}.json");
        let j = format!("{{\"property\":{},\"tier\":{},\"family\":{},\"index\":{},\"chunk_start\":{},\"input\":{},\"what\":{},\"replay_with\":{}}}\n",
            util::json_str(id), util::json_str(tier.name()), util::json_str(&rep.per_family[f.family].0), f.index, f.start,
            util::json_str(&f.fail.input), util::json_str(&f.fail.what), util::json_str(&format!("./check.sh {id} --replay {path}")));
        if replay.is_none() { std::fs::write(&path, j).expect("replay file"); }
        println!("in family {:?}, case {}", rep.per_family[f.family].0, f.index);
        println!("input: {}", f.fail.input);
        println!("{}", f.fail.what);
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    }
}
