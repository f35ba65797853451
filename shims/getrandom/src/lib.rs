//! Entropy as an environment answer: the words come from vctl::rng, like those of the thread
//! generator.
use std::num::NonZeroU32;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> { i32::try_from(self.0.get()).ok() }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl From<NonZeroU32> for Error { fn from(c: NonZeroU32) -> Error { Error(c) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "entropy error {}", self.0) } }
impl std::error::Error for Error {}
impl From<Error> for std::io::Error { fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) } }

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> { vctl::rng::fill_bytes(dest); Ok(()) }
