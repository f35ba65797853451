//! File operations as environment answers.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Open, Create, Write(usize), Read(usize), Sync, Rename, Remove, Meta }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Answer { Ok, Short(usize), Interrupted, Fail, Zero }

type Oracle = Box<dyn FnMut(Op) -> Answer>;

thread_local! { static ORACLE: RefCell<Option<Oracle>> = const { RefCell::new(None) }; }

pub fn set(o: Option<Oracle>) { ORACLE.with(|c| *c.borrow_mut() = o); }

/// How the environment answers `op`; `Answer::Ok` (perform it for real) when not under control.
pub fn ask(op: Op) -> Answer {
    ORACLE.with(|c| match c.try_borrow_mut() {
        Ok(mut g) => match g.as_mut() { Some(f) => f(op), None => Answer::Ok },
        Err(_) => Answer::Ok,
    })
}
