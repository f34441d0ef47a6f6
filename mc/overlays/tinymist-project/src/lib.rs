//! The parts of the project crate that are covered.
mod compiler;
mod entry;
#[cfg(feature = "lock")]
mod lock;
mod lsp;
#[cfg(feature = "lock")]
mod model;
mod watch;

pub use compiler::*;
pub use entry::*;
#[cfg(feature = "lock")]
pub use lock::*;
pub use lsp::*;
#[cfg(feature = "lock")]
pub use model::*;
pub use tinymist_task::*;
pub use tinymist_world as base;
pub use tinymist_world::args::*;
pub use tinymist_world::vfs;
pub use tinymist_world::{CompileSnapshot, EntryReader, EntryState, ExportSignal, ProjectInsId};
pub use watch::*;

pub mod world {
    pub use tinymist_world::args::*;
    pub use tinymist_world::entry::*;
    pub use tinymist_world::vfs;
    pub use tinymist_world::{CompilerUniverse, CompilerWorld, EntryOpts, EntryState, RevisingUniverse, TaskInputs};
}
