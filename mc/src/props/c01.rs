//! C01: names and codes.
use crate::{bridge::oops, engine::*, util::*};
use rusty_systems::symbols::{get_code, get_name, Symbol};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::str::FromStr;

#[derive(Clone, Copy, Debug)]
enum Op { Code(&'static str), Build(&'static str), Try(&'static str), TryString(&'static str), Parse(&'static str), Back }
use Op::*;

fn trimmed(s: &str) -> &str { s.trim_matches(char::is_whitespace) }

/// The model: what has been handed out so far in this process.
#[derive(Default)]
struct Known { by_name: HashMap<String, u32>, by_code: HashMap<u32, String> }
impl Known {
    /// `got` is what the library answered for `name`.
    fn learn(&mut self, name: &str, got: Result<u32, String>) -> Result<(), String> {
        let t = trimmed(name);
        match got {
            Err(e) => if t.is_empty() { Ok(()) } else { Err(format!("{} was rejected: {e}", show(name))) },
            Ok(c) => {
                if t.is_empty() { return Err(format!("the blank name {} got code {c}", show(name))) }
                match self.by_name.get(t) {
                    Some(k) if *k != c => return Err(format!("{} got code {c}, earlier {k}", show(name))),
                    Some(_) => {}
                    None => {
                        if let Some(o) = self.by_code.get(&c) { return Err(format!("{} got code {c}, which belongs to {}", show(name), show(o))) }
                        self.by_name.insert(t.into(), c);
                        self.by_code.insert(c, t.into());
                    }
                }
                match get_name(c) { Some(n) if n == t => Ok(()), n => Err(format!("{} got code {c}, whose name is {n:?}", show(name))) }
            }
        }
    }
    fn unknown(&self, c: u32) -> Result<(), String> {
        if self.by_code.contains_key(&c) { return Ok(()) }
        if let Some(n) = get_name(c) { return Err(format!("code {c} was never handed out but has the name {n:?}")) }
        if Symbol::try_from(c).is_ok() { return Err(format!("code {c} was never handed out but converts to a symbol")) }
        Ok(())
    }
    fn check_all(&self) -> Result<(), String> {
        let mut all: Vec<_> = self.by_name.iter().collect();
        all.sort();
        let mut max = 0;
        for (n, c) in all {
            max = max.max(*c);
            match get_code(n) { Ok(k) if k == *c => {} o => return Err(format!("the code of {} is {o:?}, earlier {c}", show(n))) }
            match get_name(*c) { Some(k) if k == *n => {} o => return Err(format!("the name of code {c} is {o:?} instead of {}", show(n))) }
            match Symbol::try_from(*c) { Ok(s) if s.code() == *c && s.name().as_deref() == Some(n) => {} o => return Err(format!("code {c} converts to {o:?}")) }
        }
        for c in (0..400).chain([max + 1, max + 2, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX]) { self.unknown(c)? }
        Ok(())
    }
}

fn ways(name: &str) -> [Result<u32, String>; 5] {
    let e = |e: rusty_systems::prelude::Error| e.to_string();
    [get_code(name).map_err(e), Symbol::build(name).map(|s| s.code()).map_err(e), Symbol::try_from(name).map(|s| s.code()).map_err(e),
     Symbol::try_from(name.to_string()).map(|s| s.code()).map_err(e), Symbol::from_str(name).map(|s| s.code()).map_err(e)]
}

thread_local! { static KNOWN: RefCell<Known> = RefCell::new(Known::default()); }
fn learn_all_ways(name: &str) -> Case {
    KNOWN.with(|k| {
        let mut k = k.borrow_mut();
        for got in ways(name) { k.learn(name, got).or_else(|e| fail(show(name), e))? }
        Ok(())
    })
}

fn histories(tier: Tier) -> Family {
    static OPS: [Op; 14] = [Code("a"), Code(" a\t"), Code("A"), Code("b"), Code(""), Code(" \u{3000}\n"), Build("ab"), Try("a b"), TryString("\u{a0}b"),
                            Parse("\u{200b}"), Parse("->"), Back, Build("a"), Code("100")];
    let s = Seqs::new(OPS.len(), 0, tier.pick(4, 5));
    Family::new("histories of calls from the empty registers", s.size(), move |i, ctx| {
        let seq: Vec<Op> = s.get(i).into_iter().map(|k| OPS[k]).collect();
        let r = in_child(20, || {
            let mut k = Known::default();
            let mut go = || -> Result<String, String> {
                let mut out = String::new();
                for op in &seq {
                    let e = |e: rusty_systems::prelude::Error| e.to_string();
                    let (n, got) = match op {
                        Code(n) => (*n, get_code(n).map_err(e)),
                        Build(n) => (*n, Symbol::build(n).map(|s| s.code()).map_err(e)),
                        Try(n) => (*n, Symbol::try_from(*n).map(|s| s.code()).map_err(e)),
                        TryString(n) => (*n, Symbol::try_from(n.to_string()).map(|s| s.code()).map_err(e)),
                        Parse(n) => (*n, n.parse::<Symbol>().map(|s| s.code()).map_err(e)),
                        Back => { k.check_all()?; continue }
                    };
                    out.push_str(&format!("{n:?}={got:?} "));
                    k.learn(n, got)?;
                }
                k.check_all()?;
                Ok(out)
            };
            match go() { Ok(s) => format!("+{s}"), Err(e) => format!("-{e}") }.into_bytes()
        });
        match r.map(|b| String::from_utf8_lossy(&b).into_owned()) {
            Ok(s) if s.starts_with('+') => { ctx.done(hash(&s), seq.len() as u64 + 400); ctx.sample(|| s); Ok(()) }
            Ok(s) => fail(format!("{seq:?}"), &s[1..]),
            Err(m) => fail(format!("{seq:?}"), m),
        }
    })
}

fn short_names(tier: Tier) -> Family {
    static CH: [char; 12] = ['a', 'b', 'A', ' ', '\t', 'é', '\u{301}', 'e', '\u{a0}', '-', '\0', '\u{200b}'];
    let s = Seqs::new(CH.len(), 0, tier.pick(4, 5));
    let n = s.size();
    Family::new("every name of up to 4 characters, in one process", n, move |i, ctx| {
        let name: String = s.get(i).into_iter().map(|k| CH[k]).collect();
        learn_all_ways(&name)?;
        // and an older one still stands
        let old: String = s.get(i / 2).into_iter().map(|k| CH[k]).collect();
        learn_all_ways(&old)?;
        ctx.done(hash(&name), 10);
        ctx.sample(|| show(&name));
        Ok(())
    }).chunk(n)
}

fn scalars() -> Family {
    const BLOCK: u64 = 1024;
    let n = 0x110000 / BLOCK;
    Family::new("every Unicode character as a name, in one process", n, move |b, ctx| {
        let one = |c: u32| -> Case {
            let Some(c) = char::from_u32(c) else { return Ok(()) };
            let name = c.to_string();
            KNOWN.with(|k| k.borrow_mut().learn(&name, get_code(&name).map_err(|e| e.to_string()))).or_else(|e| fail(show(&name), e))
        };
        for c in b * BLOCK..(b + 1) * BLOCK { one(c as u32)? }
        for c in (b / 2) * BLOCK..(b / 2) * BLOCK + 64 { one(c as u32)? }
        if b % 64 == 63 || b == n - 1 {
            KNOWN.with(|k| k.borrow().check_all()).or_else(|e| fail(format!("after all characters below {:x}", (b + 1) * BLOCK), e))?;
        }
        // a character that is white space is trimmed off the ends but kept inside
        for c in (b * BLOCK..(b + 1) * BLOCK).filter_map(|c| char::from_u32(c as u32)).filter(|c| c.is_whitespace()) {
            learn_all_ways(&format!("{c}x{c}{c}"))?;
            learn_all_ways(&format!("x{c}y"))?;
        }
        ctx.done(hash(&b), BLOCK + 64);
        Ok(())
    }).chunk(n)
}

fn long_names() -> Family {
    let lens = lengths(300, 1 << 20);
    let n = lens.len() as u64;
    Family::new("long names that differ in one place", n, move |i, ctx| {
        let l = lens[i as usize];
        let base = "x".repeat(l);
        learn_all_ways(&base)?;
        let mut places = vec![0, l / 2, l.saturating_sub(1)];
        if l <= 130 { places = (0..l).collect() }
        for p in places { if p < l {
            let mut b = base.clone().into_bytes();
            b[p] = b'y';
            learn_all_ways(&String::from_utf8(b).unwrap())?;
        } }
        learn_all_ways(&format!("{base}  "))?;
        learn_all_ways(&format!("{}{base}", " ".repeat(l)))?;
        ctx.done(hash(&l), 5 * 5);
        Ok(())
    }).chunk(n).patience(120)
}

/// More symbols than fit in 20 bits, all distinct: each is compared with those at distances around
/// the powers of two, the first with all, and all go into one set.
fn crowd() -> Family {
    Family::new("a crowd of symbols, all distinct", 1, |_, ctx| {
        const N: usize = (1 << 20) + (1 << 17);
        let mut all: Vec<Symbol> = Vec::with_capacity(N);
        for i in 0..N {
            all.push(oops(Symbol::build(format!("crowd{i}")), "a name")?);
            if i % 4096 == 0 { ctx.beat() }
        }
        let name = |i: usize| format!("crowd{i} and ");
        let distinct = |i: usize, j: usize| -> Case { if all[i] == all[j] { fail(format!("{}{}", name(i), name(j)), "different names, equal symbols") } else { Ok(()) } };
        for i in 1..N { distinct(0, i)?; distinct(i, 0)?; }
        for b in 0..21 { for d in [(1usize << b).wrapping_sub(1), 1 << b, (1 << b) + 1] { if d > 0 && d < N {
            for i in 0..N - d { distinct(i, i + d)? }
            ctx.beat();
        } } }
        let set: HashSet<Symbol> = all.iter().copied().collect();
        if set.len() != N { return fail(format!("{N} names"), format!("a set of their symbols has {} members", set.len())) }
        ctx.beat();
        let by: HashMap<Symbol, usize> = all.iter().copied().enumerate().map(|(i, s)| (s, i)).collect();
        for i in 0..N {
            if by.get(&all[i]) != Some(&i) { return fail(name(i), "not found in a map by symbol") }
            if i % 64 == 0 || i % 4097 < 2 {
                let s = oops(Symbol::build(format!("crowd{i}")), "a name")?;
                if s != all[i] || s.code() != all[i].code() || by.get(&s) != Some(&i) { return fail(name(i), "building it again gives another symbol") }
                if s.to_string() != format!("crowd{i}") { return fail(name(i), format!("prints as {s}")) }
            }
        }
        ctx.done(1, N as u64 * 45);
        Ok(())
    }).patience(60)
}

/// Names that well-known hash functions confuse, in one process and in both orders, and all names of
/// three characters: were names told apart by 32 bits of any good hash, some of them would meet.
fn lookalikes() -> Family {
    // CRC-32, FNV-1a, FNV-1, djb2 (plus and xor), sdbm or Murmur, times 31, times 33, sums
    static PAIRS: [(&str, &str); 30] = [
        ("plumless", "buckeroo"), ("codding", "gnu"), ("exhibiters", "schlager"), ("costarring", "liquid"), ("declinate", "macallums"), ("altarage", "zinke"), ("altarages", "zinkes"), ("creamwove", "quists"),
        ("hetairas", "mentioner"), ("heliotropes", "neurospora"), ("depravement", "serafins"), ("stylist", "subgenera"), ("joyful", "synaphea"), ("redescribed", "urites"), ("dram", "vivency"),
        ("haggadot", "loathsomenesses"), ("adorablenesses", "rentability"), ("playwright", "snush"), ("playwrighting", "snushing"), ("treponematoses", "waterbeds"),
        ("cataract", "periti"), ("roquette", "skivie"), ("shawl", "stormbound"), ("dowlases", "tramontane"), ("cricketings", "twanger"), ("longans", "whigs"), ("Aa", "BB"), ("bY", "az"), ("abc", "cab"), ("ad", "bc"),
    ];
    const CH: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-[]_.";
    Family::new("names that hashes confuse, and all names of three characters", 1 + CH.len() as u64, |i, ctx| {
        if i == 0 {
            for (a, b) in PAIRS { for n in [a, b, a, &b.repeat(2), &a.repeat(2), &format!("{a} {b}"), &format!("{b} {a}"), &format!("{b}{a}"), &format!("{a}{b}")] { learn_all_ways(n)? } }
        } else {
            for x in CH { for y in CH {
                let n = String::from_utf8(vec![CH[i as usize - 1], *x, *y]).unwrap();
                KNOWN.with(|k| k.borrow_mut().learn(&n, get_code(&n).map_err(|e| e.to_string()))).or_else(|e| fail(show(&n), e))?;
            } }
        }
        if i == CH.len() as u64 { KNOWN.with(|k| k.borrow().check_all()).or_else(|e| fail("all names of three characters, at the end", e))? }
        ctx.done(hash(&i), (CH.len() * CH.len()) as u64);
        Ok(())
    }).chunk(1 + CH.len() as u64)
}

fn equality() -> Family {
    static POOL: [&str; 12] = ["a", " a", "a ", "A", "b", "aa", "ab", "a b", "é", "e\u{301}", "-", "->"];
    let n = (POOL.len() * POOL.len()) as u64;
    Family::new("equality and hashing of symbols, all pairs and all ways of building", n, |i, ctx| {
        let (x, y) = (POOL[i as usize / POOL.len()], POOL[i as usize % POOL.len()]);
        let mk = |n: &str| -> Vec<Symbol> { vec![Symbol::build(n).unwrap(), Symbol::try_from(n).unwrap(), Symbol::try_from(n.to_string()).unwrap(),
            n.parse().unwrap(), Symbol::from_code(get_code(n).unwrap()), Symbol::try_from(get_code(n).unwrap()).unwrap()] };
        let want = trimmed(x) == trimmed(y);
        for a in mk(x) { for b in mk(y) {
            let input = format!("{x:?} and {y:?}");
            if (a == b) != want { return fail(input, format!("symbols compare {}", a == b)) }
            if (hash(&a) == hash(&b)) != want { return fail(input, "hashes do not follow equality") }
            let set: HashSet<Symbol> = [a, b].into_iter().collect();
            if set.len() != 2 - want as usize { return fail(input, format!("a set of both has {} members", set.len())) }
            if a.to_string() != trimmed(x) { return fail(input, format!("{x:?} prints as {:?}", a.to_string())) }
        } }
        ctx.done(hash(&i), 36);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    vec![histories(tier), short_names(tier), scalars(), long_names(), lookalikes(), crowd(), equality()]
}

pub const PROPERTY: Property = Property {
    id: "C01", level: "model_checking",
    rule: "Histories of registry calls from the empty registers (one fresh process each) and exhaustive sets of names interned into one process, each step compared with a map from trimmed names to codes. Distinct states are distinct (calls, answers) histories, names or blocks.",
    assumptions: &["white space is what Unicode calls White_Space", "names longer than 2^20 bytes and more than about 1.2 million symbols are not reached"],
    families,
};
