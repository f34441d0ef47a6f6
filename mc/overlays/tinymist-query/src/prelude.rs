pub use std::path::{Path, PathBuf};
pub use std::sync::LazyLock;
pub use lsp_types::Url;
