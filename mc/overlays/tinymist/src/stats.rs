//! Statistics are not covered.
use std::path::Path;

#[derive(Default)]
pub struct CompilerQueryStats;
pub struct QueryStatGuard;
impl CompilerQueryStats {
    pub fn query_stat(&self, _: Option<&Path>, _: &'static str) -> QueryStatGuard {
        QueryStatGuard
    }
}
