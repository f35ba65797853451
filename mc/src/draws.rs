//! Enumerating the random source's answers.
use std::collections::BTreeMap;
use vctl::rng::{self, Mode, Script};

/// Runs `f` once for every sequence of answers, each answer being the midpoint of one of
/// `strata` equal parts of the word's range. Gives each outcome's exact share, and the number of
/// runs and draws; None if some run draws more than `cap` words or there are too many runs.
pub fn tree<T: Ord>(strata: u32, cap: usize, max_runs: u64, mut f: impl FnMut() -> T) -> Option<(BTreeMap<T, f64>, u64, u64)> {
    let mut choices: Vec<(u32, u32)> = vec![];
    let mut out = BTreeMap::new();
    let (mut runs, mut draws) = (0, 0);
    loop {
        rng::set(Mode::Script(Script { choices: std::mem::take(&mut choices), pos: 0, strata, cap, overflow: 0, draws: 0 }));
        let r = f();
        let Mode::Script(s) = rng::set(Mode::Free) else { unreachable!() };
        if s.overflow > 0 || runs >= max_runs { return None }
        runs += 1;
        draws += s.draws;
        choices = s.choices;
        // a replayed prefix that was not used up means that the run is not a function of its answers
        choices.truncate(s.pos);
        *out.entry(r).or_insert(0.0) += choices.iter().map(|c| 1.0 / c.1 as f64).product::<f64>();
        while let Some(l) = choices.last_mut() {
            if l.0 + 1 < l.1 { l.0 += 1; break }
            choices.pop();
        }
        if choices.is_empty() { return Some((out, runs, draws)) }
    }
}

/// Runs `f` with these words as the first answers; also gives the number of words drawn.
pub fn with_words<T>(words: Vec<u64>, f: impl FnOnce() -> T) -> (T, u64) {
    rng::set(Mode::Words { words, pos: 0, draws: 0 });
    let r = f();
    let Mode::Words { draws, .. } = rng::set(Mode::Free) else { unreachable!() };
    (r, draws)
}

/// Largest difference between two distributions.
pub fn differ<T: Ord + Clone>(a: &BTreeMap<T, f64>, b: &BTreeMap<T, f64>) -> Option<(T, f64, f64)> {
    let mut worst: Option<(T, f64, f64)> = None;
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k).copied().unwrap_or(0.0), b.get(k).copied().unwrap_or(0.0));
        if worst.as_ref().is_none_or(|w| (x - y).abs() > (w.1 - w.2).abs()) { worst = Some((k.clone(), x, y)) }
    }
    worst
}

/// Withdraws an alarm that comes only from the way an implementation spends its random words:
/// over many runs on pseudo-random words, does every outcome have its share, within six standard
/// deviations? Only asked after the enumeration disagreed.
pub fn free_agrees<T: Ord + Clone>(want: &BTreeMap<T, f64>, runs: u64, mut f: impl FnMut() -> T) -> Result<(), (T, f64, f64)> {
    rng::set(Mode::Free);
    let mut n: BTreeMap<T, f64> = BTreeMap::new();
    for _ in 0..runs { *n.entry(f()).or_insert(0.0) += 1.0 / runs as f64 }
    for k in want.keys().chain(n.keys()) {
        let (p, g) = (want.get(k).copied().unwrap_or(0.0), n.get(k).copied().unwrap_or(0.0));
        let tol = 6.0 * (p * (1.0 - p).max(0.0) / runs as f64).sqrt() + 4.0 / runs as f64;
        if (p - g).abs() > tol { return Err((k.clone(), g, p)) }
    }
    Ok(())
}
