//! A cooperative scheduler for one execution of a few threads.
//!
//! Exactly one controlled thread runs at a time. Before every synchronisation operation a
//! thread announces the operation and gives up control; the scheduler computes which threads'
//! announced operations are enabled and picks one: first according to the given prefix of
//! thread ids, then the running thread if it is still enabled, then the lowest id, skipping
//! threads in the sleep set. Releases are not scheduling points (the next operation of the
//! releasing thread is) unless some thread tries locks without waiting and so can see that they
//! are held; and so is no operation that commutes with everything (reading a once-cell that is
//! already set).
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::thread::Thread;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Start of a call made by the harness; ordered against everything.
    Begin,
    Read,
    Write,
    TryRead,
    TryWrite,
    Load,
    Store,
    OnceInit,
    OnceGet,
    CvWait,
    CvNotify,
    Yield,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op { pub obj: u32, pub kind: Kind }

impl Op {
    /// May the order of the two operations matter?
    fn dependent(self, o: Op) -> bool {
        use Kind::*;
        if self.kind == Begin || o.kind == Begin || self.kind == Yield || o.kind == Yield { return true }
        if matches!(self.kind, CvWait | CvNotify) || matches!(o.kind, CvWait | CvNotify) { return true }
        if self.obj != o.obj { return false }
        let ro = |k| matches!(k, Read | TryRead | Load | OnceGet);
        !(ro(self.kind) && ro(o.kind))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub enabled: u8,
    pub sleep: u8,
    /// the thread that ran before, 0xff if none
    pub cur: u8,
    pub chosen: u8,
    /// the running thread was enabled and not yielding: leaving it costs a preemption
    pub costly: bool,
    pub op: Op,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End { Done, Deadlock(String), Livelock, Pruned, Diverged(String) }

#[derive(Default)]
struct Obj { writer: Option<usize>, readers: Vec<usize>, init: Option<usize> }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status { NotStarted, Waiting, Running, Finished }

struct Th { status: Status, pending: Op, handle: Option<Thread>, notified: bool, cv: u32 }

struct State {
    threads: Vec<Th>,
    objs: Vec<Obj>,
    prefix: Vec<u8>,
    sleep0: u8,
    trace: Vec<Node>,
    sleep: u8,
    cur: usize,
    streak: usize,
    end: Option<End>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static DONE: Condvar = Condvar::new();
static TURN: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Has some thread tried a lock without waiting for it?
pub static TRIED: AtomicBool = AtomicBool::new(false);
/// Releases are scheduling points as well.
pub static FINE: AtomicBool = AtomicBool::new(false);
static NEXT_ID: AtomicU32 = AtomicU32::new(1);

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

/// Longest execution explored; beyond it the execution counts as not terminating.
pub const HORIZON: usize = 20_000;
/// After this many operations in a row by one thread while others could run, the others go.
pub const FAIRNESS: usize = 400;

#[inline]
pub fn me() -> Option<usize> {
    // try_with: synchronisation may be used while thread-locals are being destroyed
    ME.try_with(|m| m.get()).ok().filter(|m| *m != usize::MAX)
}

/// The object id stored in `cell`, assigned at the object's first controlled use.
pub fn obj_id(cell: &AtomicU32) -> u32 {
    let v = cell.load(SeqCst);
    if v != 0 { return v }
    let id = NEXT_ID.fetch_add(1, SeqCst);
    cell.store(id, SeqCst);
    id
}

impl State {
    fn obj(&mut self, id: u32) -> &mut Obj {
        let id = id as usize;
        if self.objs.len() <= id { self.objs.resize_with(id + 1, Obj::default) }
        &mut self.objs[id]
    }

    /// A release belongs to the transition of the thread that makes it: sleeping threads whose
    /// announced operation is on the released object no longer commute with that transition.
    fn wake(&mut self, obj: u32) {
        for t in 0..self.threads.len() {
            if self.sleep & (1 << t) != 0 && self.threads[t].pending.obj == obj { self.sleep &= !(1 << t) }
        }
    }

    fn op_enabled(&mut self, t: usize) -> bool {
        if self.threads[t].status != Status::Waiting { return false }
        let op = self.threads[t].pending;
        match op.kind {
            Kind::Read => {
                if self.obj(op.obj).writer.is_some() { return false }
                // std's lock makes a reader wait behind a waiting writer: a thread that reads
                // again while it already reads deadlocks if a writer has queued in between.
                if self.obj(op.obj).readers.contains(&t) {
                    let n = self.threads.len();
                    for o in 0..n {
                        let th = &self.threads[o];
                        if o != t && th.status == Status::Waiting
                            && th.pending == (Op { obj: op.obj, kind: Kind::Write }) { return false }
                    }
                }
                true
            }
            Kind::Write => { let o = self.obj(op.obj); o.writer.is_none() && o.readers.is_empty() }
            Kind::OnceInit => self.obj(op.obj).init.is_none(),
            Kind::CvWait => self.threads[t].notified,
            _ => true,
        }
    }

    /// Picks the next thread and returns it, or None when the execution is over.
    fn decide(&mut self) -> Option<usize> {
        if self.end.is_some() { return None }
        let n = self.threads.len();
        let mut enabled = 0u8;
        for t in 0..n { if self.op_enabled(t) { enabled |= 1 << t } }
        if enabled == 0 {
            if self.threads.iter().all(|t| t.status == Status::Finished) {
                self.end = Some(End::Done);
            } else {
                let who: Vec<String> = self.threads.iter().enumerate()
                    .filter(|(_, t)| t.status != Status::Finished)
                    .map(|(i, t)| format!("thread {i} waits for {:?} on object {}", t.pending.kind, t.pending.obj)).collect();
                self.end = Some(End::Deadlock(who.join("; ")));
            }
            return None;
        }
        if self.trace.len() >= HORIZON { self.end = Some(End::Livelock); return None }

        let cur = self.cur;
        let cur_on = cur < n && enabled & (1 << cur) != 0;
        let yielding = cur_on && self.threads[cur].pending.kind == Kind::Yield;
        if cur_on && self.streak >= FAIRNESS && enabled & !(1 << cur) != 0 { enabled &= !(1 << cur) }
        let costly = cur_on && !yielding && enabled & (1 << cur) != 0;

        let step = self.trace.len();
        if step + 1 == self.prefix.len() || (self.prefix.is_empty() && step == 0) { self.sleep = self.sleep0 }
        let chosen = if step < self.prefix.len() {
            let c = self.prefix[step] as usize;
            if c >= n || enabled & (1 << c) == 0 {
                self.end = Some(End::Diverged(format!("step {step}: thread {c} not enabled (mask {enabled:b})")));
                return None;
            }
            c
        } else {
            let avail = enabled & !self.sleep;
            if avail == 0 { self.end = Some(End::Pruned); return None }
            let prefer_cur = costly && avail & (1 << cur) != 0;
            if prefer_cur { cur } else {
                let rest = if yielding && avail & !(1 << cur) != 0 { avail & !(1 << cur) } else { avail };
                rest.trailing_zeros() as usize
            }
        };
        let op = self.threads[chosen].pending;
        self.trace.push(Node { enabled, sleep: self.sleep, cur: cur.min(0xff) as u8, chosen: chosen as u8, costly, op });
        // effects
        match op.kind {
            Kind::Read => self.obj(op.obj).readers.push(chosen),
            Kind::Write => self.obj(op.obj).writer = Some(chosen),
            _ => {}
        }
        // sleeping threads whose operation depends on this one wake up
        if self.sleep != 0 {
            let mut s = self.sleep & !(1 << chosen);
            for t in 0..n { if s & (1 << t) != 0 && self.threads[t].pending.dependent(op) { s &= !(1 << t) } }
            self.sleep = s;
        }
        self.streak = if chosen == cur { self.streak + 1 } else { 0 };
        self.cur = chosen;
        self.threads[chosen].status = Status::Running;
        Some(chosen)
    }
}

fn wait_turn(t: usize) {
    while TURN.load(SeqCst) != t { std::thread::park() }
}

/// Gives control to whoever `decide` picks; returns that thread.
fn dispatch(st: &mut State) -> Option<usize> {
    let next = st.decide();
    match next {
        Some(n) => {
            TURN.store(n, SeqCst);
            if let Some(h) = &st.threads[n].handle { h.unpark() }
        }
        None => { TURN.store(usize::MAX - 1, SeqCst); DONE.notify_all(); }
    }
    next
}

/// Announce `op` and wait until it is this thread's turn to perform it.
pub fn point(op: Op) {
    let Some(t) = me() else { return };
    {
        let mut g = STATE.lock().unwrap();
        let st = g.as_mut().expect("controlled thread without a run");
        st.threads[t].pending = op;
        st.threads[t].status = Status::Waiting;
        if dispatch(st) == Some(t) { return }
    }
    wait_turn(t);
}

/// After `point` with a Try kind: take the lock if it is free.
pub fn try_take(obj: u32, write: bool) -> bool {
    let t = me().unwrap();
    TRIED.store(true, SeqCst);
    let mut g = STATE.lock().unwrap();
    let o = g.as_mut().unwrap().obj(obj);
    if o.writer.is_some() || (write && !o.readers.is_empty()) { return false }
    if write { o.writer = Some(t) } else { o.readers.push(t) }
    true
}

/// Called while the lock is still held.
pub fn before_release(obj: u32) {
    if FINE.load(SeqCst) { point(Op { obj, kind: Kind::Store }) }
}

pub fn release(obj: u32, write: bool) {
    let Some(t) = me() else { return };
    let mut g = STATE.lock().unwrap();
    let st = g.as_mut().unwrap();
    let o = st.obj(obj);
    if write { o.writer = None } else if let Some(p) = o.readers.iter().position(|r| *r == t) { o.readers.remove(p); }
    st.wake(obj);
}

/// A write lock becomes a read lock, with no moment in between.
pub fn downgrade(obj: u32) {
    let Some(t) = me() else { return };
    let mut g = STATE.lock().unwrap();
    let st = g.as_mut().unwrap();
    let o = st.obj(obj);
    o.writer = None;
    o.readers.push(t);
    st.wake(obj);
}

pub fn once_begin(obj: u32) { let t = me().unwrap(); STATE.lock().unwrap().as_mut().unwrap().obj(obj).init = Some(t); }
pub fn once_end(obj: u32) {
    if me().is_none() { return }
    let mut g = STATE.lock().unwrap();
    let st = g.as_mut().unwrap();
    st.obj(obj).init = None;
    st.wake(obj);
}

/// Condition variables: `cv_prepare` before releasing the mutex, then `point(CvWait)`.
pub fn cv_prepare(cv: u32) {
    let t = me().unwrap();
    let mut g = STATE.lock().unwrap();
    let th = &mut g.as_mut().unwrap().threads[t];
    th.notified = false; th.cv = cv;
}
pub fn cv_notify(cv: u32, all: bool) {
    let mut g = STATE.lock().unwrap();
    for th in g.as_mut().unwrap().threads.iter_mut() {
        if th.cv == cv && !th.notified && th.status == Status::Waiting && th.pending.kind == Kind::CvWait {
            th.notified = true; th.cv = 0;
            if !all { break }
        }
    }
}

pub struct Outcome { pub end: End, pub trace: Vec<Node> }

/// Runs the bodies under control. Threads of an execution that did not finish stay parked, so
/// the calling process is expected to exit without waiting for them.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, prefix: &[u8], sleep0: u8) -> Outcome {
    assert!(bodies.len() <= 7);
    let n = bodies.len();
    {
        let mut g = STATE.lock().unwrap();
        *g = Some(State {
            threads: (0..n).map(|_| Th { status: Status::NotStarted, pending: Op { obj: 0, kind: Kind::Begin }, handle: None, notified: false, cv: 0 }).collect(),
            objs: Vec::new(), prefix: prefix.to_vec(), sleep0, trace: Vec::new(), sleep: 0, cur: usize::MAX, streak: 0, end: None,
        });
        TURN.store(usize::MAX, SeqCst);
        for (t, body) in bodies.into_iter().enumerate() {
            let h = std::thread::Builder::new().stack_size(256 * 1024).spawn(move || {
                ME.with(|m| m.set(t));
                wait_turn(t);
                body();
                ME.with(|m| m.set(usize::MAX));
                let mut g = STATE.lock().unwrap();
                let st = g.as_mut().unwrap();
                st.threads[t].status = Status::Finished;
                dispatch(st);
            }).expect("spawn");
            let st = g.as_mut().unwrap();
            st.threads[t].handle = Some(h.thread().clone());
            st.threads[t].status = Status::Waiting;
        }
        dispatch(g.as_mut().unwrap());
    }
    let mut g = STATE.lock().unwrap();
    while g.as_ref().unwrap().end.is_none() { g = DONE.wait(g).unwrap(); }
    let st = g.as_mut().unwrap();
    Outcome { end: st.end.clone().unwrap(), trace: std::mem::take(&mut st.trace) }
}

/// A harness-level call boundary: a scheduling point ordered against every other operation.
pub fn begin() { point(Op { obj: 0, kind: Kind::Begin }) }
