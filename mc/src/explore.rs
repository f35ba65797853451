//! All schedules of a small program of real threads over the real code.
//!
//! Each schedule runs in a forked child of a process in which the library was never used, so
//! every schedule starts from the library's initial state. The search is a depth-first
//! enumeration of scheduling choices, in order of the number of preemptions, or (unbounded)
//! with sleep sets.
use crate::engine::*;
use crate::util::*;
use std::collections::VecDeque;
use vctl::sched::{self, End, Node, Outcome};

pub type Body = Box<dyn FnOnce() + Send>;
/// Judges a finished schedule; the text it returns identifies the observed outcome.
pub type Judge = Box<dyn FnOnce(&Outcome) -> Result<String, String>>;

pub struct Exec { pub trace: Vec<Node>, pub verdict: Verdict, pub tried: bool }
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict { Good(String), Pruned, Bad(String) }

const BUF: usize = 1 << 20;
#[repr(C)]
struct Page { used: u64, data: [u8; BUF] }

thread_local! { static PAGE: *mut Page = unsafe {
    let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Page>(), libc::PROT_READ | libc::PROT_WRITE,
                       libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
    if p == libc::MAP_FAILED { engine_error("mmap") }
    p as *mut Page
}; }

fn enc(trace: &[Node], tag: u8, msg: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(trace.len() * 5 + msg.len() + 8);
    v.extend_from_slice(&(trace.len() as u32).to_le_bytes());
    v.push(sched::TRIED.load(std::sync::atomic::Ordering::SeqCst) as u8);
    for n in trace { v.extend_from_slice(&[n.enabled, n.sleep, n.cur, n.chosen, n.costly as u8]); }
    v.push(tag);
    v.extend_from_slice(msg.as_bytes());
    v
}
fn dec(v: &[u8]) -> (Vec<Node>, u8, String, bool) {
    let n = u32::from_le_bytes(v[..4].try_into().unwrap()) as usize;
    let op = sched::Op { obj: 0, kind: sched::Kind::Begin };
    let t = (0..n).map(|i| { let b = &v[5 + i * 5..]; Node { enabled: b[0], sleep: b[1], cur: b[2], chosen: b[3], costly: b[4] != 0, op } }).collect();
    let p = 5 + n * 5;
    (t, v[p], String::from_utf8_lossy(&v[p + 1..]).into_owned(), v[4] != 0)
}

/// One schedule in a fresh child.
pub fn execute(setup: &dyn Fn() -> (Vec<Body>, Judge), prefix: &[u8], sleep0: u8, patience: u64) -> Exec {
    PAGE.with(|page| unsafe {
        let page = *page;
        (*page).used = 0;
        let pid = libc::fork();
        if pid < 0 { engine_error("fork") }
        if pid == 0 {
            libc::alarm(patience as u32);
            let (bodies, judge) = setup();
            let out = sched::run(bodies, prefix, sleep0);
            let (tag, msg) = match &out.end {
                End::Done => match quiet(|| judge(&out)) {
                    Ok(Ok(s)) => (0, s),
                    Ok(Err(m)) => (2, m),
                    Err(m) => (2, format!("panicked while examining the result: {m}")),
                },
                End::Pruned => (1, String::new()),
                End::Deadlock(m) => (2, format!("deadlock: {m}")),
                End::Livelock => (2, "threads run forever without finishing".to_string()),
                End::Diverged(m) => (3, m.clone()),
            };
            let v = enc(&out.trace, tag, &msg);
            let n = v.len().min(BUF);
            std::ptr::copy_nonoverlapping(v.as_ptr(), std::ptr::addr_of_mut!((*page).data) as *mut u8, n);
            std::ptr::write_volatile(std::ptr::addr_of_mut!((*page).used), n as u64);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == ENGINE_STATUS { libc::_exit(ENGINE_STATUS) }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let m = if s == libc::SIGALRM { format!("a thread ran for {patience} s without finishing or reaching another operation") } else { format!("the process died from signal {s}") };
            return Exec { trace: vec![], verdict: Verdict::Bad(m), tried: false };
        }
        let n = std::ptr::read_volatile(std::ptr::addr_of!((*page).used)) as usize;
        if n == 0 { return Exec { trace: vec![], verdict: Verdict::Bad(format!("the process exited with status {}", libc::WEXITSTATUS(st))), tried: false } }
        let data = std::slice::from_raw_parts(std::ptr::addr_of!((*page).data) as *const u8, n);
        let (trace, tag, msg, tried) = dec(data);
        let verdict = match tag {
            0 => Verdict::Good(msg),
            1 => Verdict::Pruned,
            2 => Verdict::Bad(msg),
            _ => engine_error(&format!("schedule replay diverged: {msg}")),
        };
        Exec { trace, verdict, tried }
    })
}

pub fn schedule_text(t: &[Node]) -> String { t.iter().map(|n| (b'0' + n.chosen) as char).collect() }

/// Preemption bound, or none (with sleep sets).
#[derive(Clone, Copy, PartialEq)]
pub enum Bound { Preemptions(u32), None }

/// Explores every schedule of the program within the bound (at most `cap` of them). If some
/// thread tries a lock without waiting, the search starts over with releases as scheduling points.
pub fn explore(name: &str, setup: &dyn Fn() -> (Vec<Body>, Judge), bound: Bound, cap: u64, ctx: &mut Ctx) -> Case {
    let mut r = Ok(true);
    for fine in [false, true] {
        sched::FINE.store(fine, std::sync::atomic::Ordering::SeqCst);
        r = search(name, setup, bound, cap, fine, ctx);
        if !matches!(r, Ok(true)) { break }
    }
    sched::FINE.store(false, std::sync::atomic::Ordering::SeqCst);
    r.map(|_| ())
}

/// Gives true if the search is to start over.
fn search(name: &str, setup: &dyn Fn() -> (Vec<Body>, Judge), bound: Bound, cap: u64, fine: bool, ctx: &mut Ctx) -> Result<bool, Fail> {
    let report = |m: &str, t: &[Node]| -> Case {
        let s: Vec<u8> = t.iter().map(|n| n.chosen).collect();
        // the same schedule must fail again before it is believed
        let again = execute(setup, &s, 0, 20);
        if let Verdict::Bad(_) = again.verdict {
            fail(format!("program {name}; schedule (thread ids) {}", schedule_text(t)), m)
        } else {
            engine_error(&format!("program {name}: failure not reproduced ({m})"))
        }
    };
    let maxb = match bound { Bound::Preemptions(b) => b as usize, Bound::None => 0 };
    let mut queues: Vec<VecDeque<(Vec<u8>, u8)>> = vec![VecDeque::new(); maxb + 1];
    queues[0].push_back((vec![], 0));
    let mut runs = 0u64;
    let mut first: Option<(Vec<u8>, Verdict)> = None;
    loop {
        let Some(c) = queues.iter().position(|q| !q.is_empty()) else { break };
        let (prefix, sleep0) = queues[c].pop_back().unwrap();
        if runs >= cap { ctx.capped(); break }
        runs += 1;
        if runs % 64 == 0 { ctx.beat() }
        let ex = execute(setup, &prefix, sleep0, 30);
        if ex.tried && !fine { return Ok(true) }
        ctx.extra(EXECUTIONS, 1);
        ctx.trans(ex.trace.len() as u64);
        ctx.extra_max(MAX_STEPS, ex.trace.len() as u64);
        match &ex.verdict {
            Verdict::Bad(m) => return report(m, &ex.trace).map(|_| false),
            Verdict::Good(o) => { ctx.state(hash(&(name, o))); ctx.validated(1) }
            Verdict::Pruned => {}
        }
        if first.is_none() {
            // the harness owns every choice: the same schedule gives the same trace and outcome
            let s: Vec<u8> = ex.trace.iter().map(|n| n.chosen).collect();
            let again = execute(setup, &s, 0, 30);
            if again.verdict != ex.verdict || again.trace.len() != ex.trace.len() { engine_error(&format!("program {name} is not deterministic: {:?} then {:?}", ex.verdict, again.verdict)) }
            first = Some((s, ex.verdict.clone()));
            let o = match &ex.verdict { Verdict::Good(o) => o.clone(), _ => String::new() };
            ctx.sample(|| format!("{name} | schedule {} | {o}", schedule_text(&ex.trace)));
        }
        let mut cost = 0usize;
        for i in 0..ex.trace.len() {
            let n = &ex.trace[i];
            if i >= prefix.len() {
                let mut sleep = n.sleep | 1 << n.chosen;
                for alt in 0..8u8 {
                    if alt == n.chosen || n.enabled & (1 << alt) == 0 { continue }
                    if bound == Bound::None && n.sleep & (1 << alt) != 0 { continue }
                    let k = match bound {
                        Bound::Preemptions(_) => cost + (n.costly && alt != n.cur) as usize,
                        Bound::None => 0,
                    };
                    if k > maxb { continue }
                    let mut p: Vec<u8> = ex.trace[..i].iter().map(|n| n.chosen).collect();
                    p.push(alt);
                    queues[k].push_back((p, if bound == Bound::None { sleep } else { 0 }));
                    sleep |= 1 << alt;
                }
            }
            if n.costly && n.chosen != n.cur { cost += 1 }
        }
    }
    Ok(false)
}
