//! Histories of concurrent calls and the search for a sequential order that explains them.
use crate::util::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::hash::Hash;

static SEQ: AtomicU64 = AtomicU64::new(1);

/// One call: who made it, when it started and returned, and what it gave.
#[derive(Clone, Debug)]
pub struct Rec<O, R> { pub thread: usize, pub op: O, pub start: u64, pub end: u64, pub res: Result<R, String> }

pub type Log<O, R> = Arc<Mutex<Vec<Rec<O, R>>>>;

/// Makes one call under the scheduler and records it. A panic is recorded as the result.
pub fn call<O: Clone, R>(log: &Log<O, R>, thread: usize, op: &O, f: impl FnOnce() -> R) {
    vctl::sched::begin();
    let start = SEQ.fetch_add(1, SeqCst);
    let res = quiet(f);
    let end = SEQ.fetch_add(1, SeqCst);
    log.lock().unwrap().push(Rec { thread, op: op.clone(), start, end, res });
}

/// One atomic step of a call: it may take effect at any moment between `start` and `end`, after
/// the steps listed in `after`.
#[derive(Clone, Debug)]
pub struct Step<E> { pub start: u64, pub end: u64, pub after: Vec<usize>, pub effect: E }

/// Is there an order of the steps, consistent with real time, in which every step is possible?
pub fn linearizable<S: Clone + Hash, E>(init: S, steps: &[Step<E>], apply: &dyn Fn(&mut S, &E) -> bool) -> bool {
    assert!(steps.len() <= 60);
    let n = steps.len();
    let mut before = vec![0u64; n];
    for i in 0..n {
        for j in 0..n { if steps[j].end < steps[i].start { before[i] |= 1 << j } }
        for j in &steps[i].after { before[i] |= 1 << j }
    }
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((mask, s)) = stack.pop() {
        if mask.count_ones() as usize == n { return true }
        for i in 0..n {
            if mask & (1 << i) != 0 || before[i] & !mask != 0 { continue }
            let mut t = s.clone();
            if !apply(&mut t, &steps[i].effect) { continue }
            let m = mask | 1 << i;
            if seen.insert((m, hash(&t))) { stack.push((m, t)) }
        }
    }
    false
}
