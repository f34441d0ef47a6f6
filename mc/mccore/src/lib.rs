//! The exploration core shared by every check.
//!
//! * [`explore`]: exhaustive, deviation-bounded enumeration of a tree of
//!   choices; the deciding step of every check.
//! * [`rt`]: a controlled scheduler for real code compiled against
//!   instrumented synchronisation primitives.
//! * [`statics`]: a fresh process for every execution.
//! * [`report`]: evidence, replay artefacts, known findings, exit codes.

pub mod explore;
mod fiber;
pub mod report;
pub mod rt;
pub mod statics;
pub mod watch;

pub use explore::{explore, Chooser, Config, Fail, Stats};
pub use report::{main_with, Ctx, Part};
