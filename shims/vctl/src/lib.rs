//! Control points shared by the std shim, the rand shim and the model checker.
//!
//! * [`sched`]: a cooperative scheduler that runs a handful of real threads one at a time and
//!   decides, at every synchronisation operation, which one goes next.
//! * [`rng`]: the answers of the random source.
//! * [`io`]: the answers of the operating system to file operations.
//!
//! Everything is inert (pass-through) unless the model checker turned it on for this thread.

pub mod sched;
pub mod rng;
pub mod io;
