pub mod registry;
pub use registry::{PackageError, PackageRegistry, PackageSpec};
