//! Bounded exhaustive exploration of crossmist: explorer, runner, system call interposition,
//! cooperative scheduler. See /verif/DESIGN.md.
pub mod ends;
pub mod explore;
pub mod files;
pub mod run;
pub mod sched;
pub mod stream;
pub mod sys;
pub mod util;

pub use explore::{choose, deviate};
pub use run::{Scenario, Verdict};

/// Fail the current execution: the property does not hold on it.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(format!($($fmt)*));
        }
    };
}
