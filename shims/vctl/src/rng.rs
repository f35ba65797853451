//! The random source as an environment that the explorer answers.
//!
//! Every draw asks for one 64 bit word. Under exploration the word is one of `strata` equally
//! spaced midpoints, and which one is a choice of the depth-first search; otherwise words come
//! from a fixed deterministic generator (so that runs are reproducible).
use std::cell::RefCell;

#[derive(Default)]
pub struct Script {
    /// Choices to replay, then extend with zeros.
    pub choices: Vec<(u32, u32)>,
    pub pos: usize,
    pub strata: u32,
    /// Draws after this many are answered by the fallback generator (and counted as overflow).
    pub cap: usize,
    pub overflow: u64,
    pub draws: u64,
}

pub enum Mode {
    Free,
    Script(Script),
    /// The first draws are these exact words, the rest come from the fallback generator.
    Words { words: Vec<u64>, pos: usize, draws: u64 },
}

struct State { mode: Mode, fallback: u64 }

thread_local! {
    static STATE: RefCell<State> = const { RefCell::new(State { mode: Mode::Free, fallback: 0x9E37_79B9_7F4A_7C15 }) };
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Set the mode, returning the old one.
pub fn set(mode: Mode) -> Mode {
    STATE.with(|s| std::mem::replace(&mut s.borrow_mut().mode, mode))
}

/// Re-seeds the fallback generator.
pub fn seed(v: u64) { STATE.with(|s| s.borrow_mut().fallback = v); }

/// Midpoint of stratum `i` of `n` as a 64 bit word.
pub fn midpoint(i: u64, n: u64) -> u64 {
    ((((2 * i as u128 + 1) << 63) / n as u128)) as u64
}

pub fn next_word() -> u64 {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let State { mode, fallback } = &mut *s;
        match mode {
            Mode::Free => splitmix(fallback),
            Mode::Script(sc) => {
                sc.draws += 1;
                if sc.pos >= sc.cap { sc.overflow += 1; return splitmix(fallback); }
                if sc.pos == sc.choices.len() { let n = sc.strata; sc.choices.push((0, n)); }
                let (c, n) = sc.choices[sc.pos];
                sc.pos += 1;
                midpoint(c as u64, n as u64)
            }
            Mode::Words { words, pos, draws } => {
                *draws += 1;
                if *pos < words.len() { *pos += 1; words[*pos - 1] } else { splitmix(fallback) }
            }
        }
    })
}
/// Entropy for generators other than the thread generator: always deterministic.
pub fn entropy_word() -> u64 { STATE.with(|s| splitmix(&mut s.borrow_mut().fallback)) }

pub fn next_u32() -> u32 { (next_word() >> 32) as u32 }
pub fn next_u64() -> u64 { next_word() }
pub fn fill_bytes(dest: &mut [u8]) {
    for chunk in dest.chunks_mut(8) {
        let w = next_word().to_le_bytes();
        let n = chunk.len();
        // keep the most significant bytes, so that short requests still see the stratum
        chunk.copy_from_slice(&w[8 - n..]);
    }
}
