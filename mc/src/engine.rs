//! Enumerates the cases of a property's families in forked workers.
//!
//! A family is a finite, indexed set of cases; a case runs the real code and compares it with
//! the reference. Every index below the family's size is run, so a completed family is an
//! exhaustive enumeration of its space. Workers are fresh processes, so every chunk of cases
//! starts from the library's initial state.
use crate::util::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T { if self == Tier::Quick { quick } else { thorough } }
    pub fn name(self) -> &'static str { self.pick("quick", "thorough") }
}

/// What a failing case reports: the input that fails and what went wrong.
#[derive(Debug)]
pub struct Fail { pub input: String, pub what: String }
pub type Case = Result<(), Fail>;
pub fn fail<T>(input: impl Into<String>, what: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { input: input.into(), what: what.into() })
}

type Run = Box<dyn Fn(u64, &mut Ctx) -> Case>;
pub struct Family {
    pub name: String,
    pub size: u64,
    /// cases per worker process; 0 = choose
    pub chunk: u64,
    /// a case that makes no progress for this long counts as not terminating
    pub patience_s: u64,
    pub run: Run,
}
impl Family {
    pub fn new(name: impl Into<String>, size: u64, run: impl Fn(u64, &mut Ctx) -> Case + 'static) -> Family {
        Family { name: name.into(), size, chunk: 0, patience_s: 60, run: Box::new(run) }
    }
    pub fn chunk(mut self, n: u64) -> Self { self.chunk = n; self }
    pub fn patience(mut self, s: u64) -> Self { self.patience_s = s; self }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    /// how cases are made and what makes one count as distinct and non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: fn(Tier) -> Vec<Family>,
}

const SLOTS: usize = 16;
const MSG: usize = 16384;
const SET: usize = 1 << 22;
const SAMPLES: usize = 6;

#[repr(C)]
struct Slot { index: AtomicU64, beat: AtomicU64, cases: AtomicU64, has: AtomicU32, input_len: AtomicU32, what_len: AtomicU32, text: [u8; MSG] }
#[repr(C)]
struct Sample { len: AtomicU32, text: [u8; 1024] }
#[repr(C)]
struct Shared {
    slots: [Slot; SLOTS],
    transitions: AtomicU64,
    validated: AtomicU64,
    distinct: AtomicU64,
    extra: [AtomicU64; 8],
    capped: AtomicU32,
    sample_n: AtomicU32,
    samples: [Sample; SAMPLES],
    known: [AtomicU32; 64],
    set: [AtomicU64; SET],
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { engine_error("mmap") }
        &*(p as *const Shared)
    }
}

pub struct Ctx {
    pub tier: Tier,
    sh: &'static Shared,
    slot: usize,
    want_sample: bool,
    known: &'static [String],
}
/// Extra counters, reported by name in the evidence.
pub const EXECUTIONS: usize = 0;
pub const MAX_STEPS: usize = 1;
pub const CAPPED: usize = 2;
pub const DRAWS: usize = 3;
pub const FAULTS: usize = 4;
const EXTRA_NAMES: [&str; 8] = ["schedules_executed", "longest_schedule", "programs_capped", "random_draws_answered", "injected_faults", "", "", ""];

impl Ctx {
    /// Counts a distinct observed state or outcome.
    pub fn state(&mut self, h: u64) {
        let h = h | 1;
        let mut i = (h >> 7) as usize & (SET - 1);
        for _ in 0..64 {
            let s = &self.sh.set[i];
            match s.load(Relaxed) {
                0 => match s.compare_exchange(0, h, Relaxed, Relaxed) {
                    Ok(_) => { self.sh.distinct.fetch_add(1, Relaxed); return }
                    Err(v) if v == h => return,
                    _ => {}
                },
                v if v == h => return,
                _ => {}
            }
            i = (i + 1) & (SET - 1);
        }
        // table (nearly) full: the count is a lower bound from here on
    }
    pub fn trans(&mut self, n: u64) { self.sh.transitions.fetch_add(n, Relaxed); }
    pub fn validated(&mut self, n: u64) { self.sh.validated.fetch_add(n, Relaxed); }
    pub fn extra(&mut self, i: usize, n: u64) { self.sh.extra[i].fetch_add(n, Relaxed); }
    pub fn extra_max(&mut self, i: usize, n: u64) { self.sh.extra[i].fetch_max(n, Relaxed); }
    pub fn capped(&mut self) { self.sh.capped.store(1, Relaxed); self.extra(CAPPED, 1) }
    pub fn beat(&mut self) { self.sh.slots[self.slot].beat.fetch_add(1, Relaxed); }
    /// The whole of one ordinary case: one distinct state, `ops` calls, one comparison.
    pub fn done(&mut self, h: u64, ops: u64) { self.state(h); self.trans(ops); self.validated(1) }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.want_sample { return }
        self.want_sample = false;
        let n = self.sh.sample_n.fetch_add(1, Relaxed) as usize;
        if n >= SAMPLES { return }
        let t = f();
        let mut e = t.len().min(1000);
        while !t.is_char_boundary(e) { e -= 1 }
        let s = &self.sh.samples[n];
        unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), s.text.as_ptr() as *mut u8, e) }
        s.len.store(e as u32, Relaxed);
    }
}

fn put(slot: &Slot, f: &Fail) {
    let cut = |s: &str, n: usize| { let mut e = s.len().min(n); while !s.is_char_boundary(e) { e -= 1 } s[..e].to_string() };
    let a = cut(&f.input, MSG / 2 - 8);
    let b = cut(&f.what, MSG / 2 - 8);
    unsafe {
        let p = slot.text.as_ptr() as *mut u8;
        std::ptr::copy_nonoverlapping(a.as_ptr(), p, a.len());
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(a.len()), b.len());
    }
    slot.input_len.store(a.len() as u32, Relaxed);
    slot.what_len.store(b.len() as u32, Relaxed);
    slot.has.store(1, Relaxed);
}
fn take(slot: &Slot) -> Fail {
    let a = slot.input_len.load(Relaxed) as usize;
    let b = slot.what_len.load(Relaxed) as usize;
    Fail { input: String::from_utf8_lossy(&slot.text[..a]).into(), what: String::from_utf8_lossy(&slot.text[a..a + b]).into() }
}

fn worker(fam: &Family, start: u64, end: u64, ctx: &mut Ctx) -> i32 {
    let slot = &ctx.sh.slots[ctx.slot];
    for i in start..end {
        slot.index.store(i, Relaxed);
        slot.beat.fetch_add(1, Relaxed);
        ctx.want_sample = (i == start && (i == 0 || i > fam.size / 2)) || i + 1 == fam.size;
        let r = match quiet(|| (fam.run)(i, ctx)) {
            Ok(r) => r,
            Err(m) => fail("", format!("panicked: {m}")),
        };
        if let Err(f) = r {
            if let Some(k) = ctx.known.iter().position(|k| *k == format!("{} {}", fam.name, f.input)) {
                ctx.sh.known[k.min(63)].store(1, Relaxed);
            } else {
                put(slot, &f);
                return 1;
            }
        }
        slot.cases.fetch_add(1, Relaxed);
    }
    0
}

pub struct Found { pub family: usize, pub index: u64, pub start: u64, pub fail: Fail }

pub struct Report {
    pub found: Option<Found>,
    pub complete: bool,
    pub per_family: Vec<(String, u64, u64, f64)>,
}

pub fn jobs() -> usize {
    std::env::var("MC_JOBS").ok().and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, SLOTS)
}

struct Live { pid: i32, slot: usize, family: usize, start: u64, beat: u64, since: Instant, patience: u64 }

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// What the code under test puts into a temporary or the current directory stays with one worker.
pub fn own_place(dir: &str) {
    if std::fs::create_dir_all(dir).is_err() || std::env::set_current_dir(dir).is_err() { engine_error("directory of a worker") }
    unsafe { std::env::set_var("TMPDIR", dir) }
}
struct Places(String, usize);
impl Drop for Places { fn drop(&mut self) { for k in 0..self.1 { let _ = std::fs::remove_dir_all(format!("{}{k}", self.0)); } } }

pub fn run(prop: &Property, tier: Tier, wall: Duration, only: Option<(usize, u64, u64)>, known: &'static [String]) -> (Report, Evidence) {
    let t0 = Instant::now();
    let sh = shared();
    let fams = (prop.families)(tier);
    let jobs = jobs();
    let own = format!("/tmp/mc-own-{}-", std::process::id());
    let _clear = Places(own.clone(), jobs);
    let mut found: Option<Found> = None;
    let mut live: Vec<Live> = Vec::new();
    let mut free: Vec<usize> = (0..jobs).rev().collect();
    let mut complete = true;
    let mut per_family: Vec<(String, u64, u64, f64)> = fams.iter().map(|f| (f.name.clone(), f.size, 0, 0.0)).collect();
    // what is left to hand out
    let mut todo: Vec<(usize, u64, u64)> = Vec::new();
    match only {
        Some(x) => todo.push(x),
        None => for (fi, f) in fams.iter().enumerate() {
            let c = if f.chunk > 0 { f.chunk } else { (f.size / (jobs as u64 * 6)).clamp(1, 200_000) };
            let mut s = 0;
            while s < f.size { todo.push((fi, s, (s + c).min(f.size))); s += c }
        },
    }
    // one chunk of every family first, so that a capped run still touches them all
    let mut head = Vec::new();
    let mut tail = Vec::new();
    for t in todo { if t.1 == 0 { head.push(t) } else { tail.push(t) } }
    head.extend(tail);
    let mut todo = head.into_iter();
    let mut next = todo.next();
    let mut pause = 50u64;
    loop {
        if next.is_some() && t0.elapsed() > wall { complete = false; next = None; todo = Vec::new().into_iter(); }
        while let (Some((fi, s, e)), true) = (next, !free.is_empty()) {
            if let Some(b) = &found { if (fi, s) > (b.family, b.index) { next = todo.next(); continue } }
            let slot = free.pop().unwrap();
            let sl = &sh.slots[slot];
            sl.has.store(0, Relaxed);
            sl.cases.store(0, Relaxed);
            sl.index.store(s, Relaxed);
            unsafe {
                let pid = libc::fork();
                if pid < 0 { engine_error("fork") }
                if pid == 0 {
                    libc::setpgid(0, 0);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    limits();
                    own_place(&format!("{own}{slot}"));
                    std::env::set_var("MC_OWN", format!("{own}{slot}"));
                    let mut ctx = Ctx { tier, sh, slot, want_sample: false, known };
                    let st = worker(&fams[fi], s, e, &mut ctx);
                    libc::_exit(st);
                }
                libc::setpgid(pid, pid);
                live.push(Live { pid, slot, family: fi, start: s, beat: 0, since: Instant::now(), patience: fams[fi].patience_s });
            }
            next = todo.next();
        }
        if live.is_empty() && next.is_none() { break }
        let mut i = 0;
        let mut any = false;
        while i < live.len() {
            let mut st = 0;
            let r = unsafe { libc::waitpid(live[i].pid, &mut st, libc::WNOHANG) };
            let l = &mut live[i];
            let sl = &sh.slots[l.slot];
            let mut over: Option<Option<Fail>> = None;
            if r == l.pid {
                if libc::WIFEXITED(st) {
                    match libc::WEXITSTATUS(st) {
                        0 => over = Some(None),
                        1 if sl.has.load(Relaxed) == 1 => over = Some(Some(take(sl))),
                        s if s == ENGINE_STATUS => {
                            eprintln!("ENGINE-ERROR in {} case {} of {}", prop.id, sl.index.load(Relaxed), fams[l.family].name);
                            for l in &live { unsafe { libc::kill(-l.pid, libc::SIGKILL); } }
                            std::process::exit(2);
                        }
                        s => over = Some(Some(Fail { input: String::new(), what: format!("the process exited with status {s} during this case") })),
                    }
                } else {
                    let s = libc::WTERMSIG(st);
                    if s == libc::SIGKILL {
                        // nothing in the code under test sends it: the machine ran out of memory
                        eprintln!("ENGINE-ERROR worker was killed from outside (memory?)");
                        for l in &live { unsafe { libc::kill(-l.pid, libc::SIGKILL); } }
                        std::process::exit(2);
                    }
                    over = Some(Some(Fail { input: String::new(), what: format!("the process died from signal {s} (abort, stack overflow or out of memory) during this case") }));
                }
            } else {
                let b = sl.beat.load(Relaxed);
                if b != l.beat { l.beat = b; l.since = Instant::now() }
                if l.since.elapsed() > Duration::from_secs(l.patience) {
                    unsafe { libc::kill(-l.pid, libc::SIGKILL); let mut st = 0; libc::waitpid(l.pid, &mut st, 0); }
                    over = Some(Some(Fail { input: String::new(), what: format!("did not terminate within {} s", l.patience) }));
                }
            }
            if let Some(o) = over {
                any = true;
                let l = live.swap_remove(i);
                unsafe { libc::kill(-l.pid, libc::SIGKILL); }
                let sl = &sh.slots[l.slot];
                per_family[l.family].2 += sl.cases.load(Relaxed);
                per_family[l.family].3 = t0.elapsed().as_secs_f64();
                if let Some(fail) = o {
                    let ix = sl.index.load(Relaxed);
                    if found.as_ref().is_none_or(|f| (l.family, ix) < (f.family, f.index)) {
                        found = Some(Found { family: l.family, index: ix, start: l.start, fail });
                    }
                    // no need to finish what comes later
                    let b = found.as_ref().unwrap();
                    for o in &live { if (o.family, o.start) > (b.family, b.index) { unsafe { libc::kill(-o.pid, libc::SIGUSR1); } } }
                }
                free.push(l.slot);
                continue;
            }
            i += 1;
        }
        if found.is_some() {
            // workers stopped on purpose end with SIGUSR1; drop them quietly
            let b = found.as_ref().map(|b| (b.family, b.index)).unwrap();
            live.retain(|o| {
                if (o.family, o.start) > b {
                    unsafe { libc::kill(-o.pid, libc::SIGKILL); let mut st = 0; libc::waitpid(o.pid, &mut st, 0); }
                    free.push(o.slot);
                    false
                } else { true }
            });
        }
        if any { pause = 50 } else { std::thread::sleep(Duration::from_micros(pause)); pause = (pause * 2).min(5000) }
    }
    if found.is_some() { complete = false }
    if sh.capped.load(Relaxed) != 0 { complete = false }
    let n = (sh.sample_n.load(Relaxed) as usize).min(SAMPLES);
    let samples = (0..n).map(|i| { let s = &sh.samples[i]; String::from_utf8_lossy(&s.text[..s.len.load(Relaxed) as usize]).into_owned() }).filter(|s| !s.is_empty()).collect();
    let ev = Evidence {
        states: sh.distinct.load(Relaxed), transitions: sh.transitions.load(Relaxed), validated: sh.validated.load(Relaxed),
        evaluations: per_family.iter().map(|f| f.2).sum(),
        extra: EXTRA_NAMES.iter().zip(&sh.extra).filter(|(n, v)| !n.is_empty() && v.load(Relaxed) > 0).map(|(n, v)| (n.to_string(), v.load(Relaxed))).collect(),
        samples, wall: t0.elapsed().as_secs_f64(),
    };
    let used: BTreeSet<usize> = (0..known.len().min(64)).filter(|k| sh.known[*k].load(Relaxed) != 0).collect();
    for k in used { println!("KNOWN-FINDING: property={} {}", prop.id, known[k]); }
    (Report { found, complete, per_family }, ev)
}

pub struct Evidence {
    pub states: u64, pub transitions: u64, pub validated: u64, pub evaluations: u64,
    pub extra: Vec<(String, u64)>, pub samples: Vec<String>, pub wall: f64,
}

pub fn evidence_json(p: &Property, tier: Tier, seed: i64, r: &Report, e: &Evidence) -> String {
    let fams: Vec<String> = r.per_family.iter().map(|(n, size, done, t)|
        format!("{{\"family\":{},\"space\":{size},\"explored\":{done},\"finished_at_s\":{t:.2}}}", json_str(n))).collect();
    let samples: Vec<String> = e.samples.iter().map(|s| json_str(s)).collect();
    let mut cov = format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{}", e.evaluations, e.states, json_str(p.rule));
    if p.level == "model_checking" {
        cov.push_str(&format!(",\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}", e.states, e.transitions, e.validated));
    } else {
        cov.push_str(&format!(",\"operations\":{}", e.transitions));
    }
    for (n, v) in &e.extra { cov.push_str(&format!(",{}:{v}", json_str(n))); }
    cov.push_str(&format!(",\"exhaustive\":{},\"families\":[{}],\"samples\":[{}]", r.complete, fams.join(","), samples.join(",")));
    let asm: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    format!("{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{seed},\n \"level\":{},\n \"coverage\":{{{cov}}},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
        json_str(p.id), json_str(tier.name()), json_str(p.level), asm.join(","), e.wall, r.found.is_some() as u32)
}
