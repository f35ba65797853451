//! The real standard library, except that synchronisation (`sync`, parts of `thread` and
//! `hint`) and files (`fs`) go through `vctl` when the model checker is in control.
//!
//! The crate under test is compiled with this crate under the name `std`.
pub use ::std::*;

pub mod sync;
pub mod fs;

pub mod thread {
    pub use ::std::thread::*;
    use vctl::sched::{self, Kind, Op};
    fn pause() -> bool {
        if sched::me().is_some() { sched::point(Op { obj: 0, kind: Kind::Yield }); true } else { false }
    }
    pub fn yield_now() { if !pause() { ::std::thread::yield_now() } }
    pub fn sleep(d: ::std::time::Duration) { if !pause() { ::std::thread::sleep(d) } }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if vctl::sched::me().is_some() { super::thread::yield_now() } else { ::std::hint::spin_loop() }
    }
}
