pub mod model;
pub use model::*;
pub mod primitives;
pub use primitives::*;
pub mod compute;
pub use compute::*;
