//! Command line parsing is replaced by a value that the harness supplies.
pub use stub_macros::{Parser, Subcommand};
use std::any::Any;

static mut GIVEN: Option<Box<dyn Any>> = None;

pub fn give<T: 'static>(v: T) {
    unsafe { GIVEN = Some(Box::new(v)) }
}
#[allow(static_mut_refs)]
pub fn given<T: 'static>() -> T {
    unsafe {
        match GIVEN.take().map(|b| b.downcast::<T>()) {
            Some(Ok(v)) => *v,
            _ => panic!("no command"),
        }
    }
}
