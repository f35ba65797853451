// Thread-local random number generator, replaced for model checking: the words come from the
// explorer (see vctl::rng). Everything else in this crate is rand 0.8.5 unchanged.
use crate::{CryptoRng, Error, RngCore};

/// A reference to the (controlled) thread-local generator.
#[derive(Clone, Debug)]
pub struct ThreadRng { _not_send: core::marker::PhantomData<std::rc::Rc<()>> }

/// The (controlled) thread-local generator.
pub fn thread_rng() -> ThreadRng { ThreadRng { _not_send: core::marker::PhantomData } }

impl Default for ThreadRng {
    fn default() -> ThreadRng { crate::prelude::thread_rng() }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { vctl::rng::next_u32() }
    fn next_u64(&mut self) -> u64 { vctl::rng::next_u64() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { vctl::rng::fill_bytes(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { vctl::rng::fill_bytes(dest); Ok(()) }
}

impl CryptoRng for ThreadRng {}
