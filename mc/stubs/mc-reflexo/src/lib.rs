//! What `reflexo` re-exports of tinymist's own crates.
pub use tinymist_std::*;
pub use tinymist_world::debug_loc;
