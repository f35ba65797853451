// Copyright 2018 Developers of the Rand project.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// https://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or https://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

//! The standard RNG

use crate::{CryptoRng, Error, RngCore, SeedableRng};

pub(crate) use rand_chacha::ChaCha12Core as Core;

use rand_chacha::ChaCha12Rng as Rng;

/// The standard RNG. The PRNG algorithm in `StdRng` is chosen to be efficient
/// on the current platform, to be statistically strong and unpredictable
/// (meaning a cryptographically secure PRNG).
///
/// The current algorithm used is the ChaCha block cipher with 12 rounds. Please
/// see this relevant [rand issue] for the discussion. This may change as new 
/// evidence of cipher security and performance becomes available.
///
/// The algorithm is deterministic but should not be considered reproducible
/// due to dependence on configuration and possible replacement in future
/// library versions. For a secure reproducible generator, we recommend use of
/// the [rand_chacha] crate directly.
///
/// [rand_chacha]: https://crates.io/crates/rand_chacha
/// [rand issue]: https://github.com/rust-random/rand/issues/932
///
/// Controlled variant: a generator seeded from entropy, or from the thread generator, takes its
/// words from the explorer. One seeded from given bytes is the published generator.
#[derive(Debug)]
pub struct StdRng(std::sync::Mutex<State>);

#[derive(Debug, Clone, PartialEq, Eq)]
enum State { Controlled, Seeded(Rng) }

impl StdRng {
    fn state(&self) -> std::sync::MutexGuard<'_, State> { self.0.lock().unwrap_or_else(|e| e.into_inner()) }
}

/// A copy must give the same words as its original: both continue from one seed.
impl Clone for StdRng {
    fn clone(&self) -> Self {
        let mut s = self.state();
        if *s == State::Controlled {
            let mut seed = <Rng as SeedableRng>::Seed::default();
            for c in seed.chunks_mut(8) { c.copy_from_slice(&vctl::rng::entropy_word().to_le_bytes()) }
            *s = State::Seeded(Rng::from_seed(seed));
        }
        StdRng(std::sync::Mutex::new(s.clone()))
    }
}
impl PartialEq for StdRng { fn eq(&self, o: &Self) -> bool { core::ptr::eq(self, o) || *self.state() == *o.state() } }
impl Eq for StdRng {}

impl RngCore for StdRng {
    fn next_u32(&mut self) -> u32 {
        match &mut *self.state() { State::Controlled => vctl::rng::next_u32(), State::Seeded(r) => r.next_u32() }
    }
    fn next_u64(&mut self) -> u64 {
        match &mut *self.state() { State::Controlled => vctl::rng::next_u64(), State::Seeded(r) => r.next_u64() }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        match &mut *self.state() { State::Controlled => vctl::rng::fill_bytes(dest), State::Seeded(r) => r.fill_bytes(dest) }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}

impl SeedableRng for StdRng {
    type Seed = <Rng as SeedableRng>::Seed;

    fn from_seed(seed: Self::Seed) -> Self {
        StdRng(std::sync::Mutex::new(State::Seeded(Rng::from_seed(seed))))
    }

    fn from_rng<R: RngCore>(rng: R) -> Result<Self, Error> {
        if core::any::type_name::<R>().ends_with("ThreadRng") { return Ok(Self::from_entropy()) }
        Rng::from_rng(rng).map(|r| StdRng(std::sync::Mutex::new(State::Seeded(r))))
    }

    fn from_entropy() -> Self { StdRng(std::sync::Mutex::new(State::Controlled)) }
}

impl CryptoRng for StdRng {}


#[cfg(test)]
mod test {
    use crate::rngs::StdRng;
    use crate::{RngCore, SeedableRng};

    #[test]
    fn test_stdrng_construction() {
        // Test value-stability of StdRng. This is expected to break any time
        // the algorithm is changed.
        #[rustfmt::skip]
        let seed = [1,0,0,0, 23,0,0,0, 200,1,0,0, 210,30,0,0,
                    0,0,0,0, 0,0,0,0, 0,0,0,0, 0,0,0,0];

        let target = [10719222850664546238, 14064965282130556830];

        let mut rng0 = StdRng::from_seed(seed);
        let x0 = rng0.next_u64();

        let mut rng1 = StdRng::from_rng(rng0).unwrap();
        let x1 = rng1.next_u64();

        assert_eq!([x0, x1], target);
    }
}
