//! JSON is YAML.
pub use serde_json::{to_string, Error};
