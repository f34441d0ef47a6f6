//! No project has a lock file.
use std::path::PathBuf;
use std::sync::Arc;

use tinymist_std::ImmutPath;
use tinymist_task::{Id, ResourcePath};

#[derive(Default)]
pub struct ProjectRouteState;
pub struct ProjectResolution {
    pub lock_dir: ImmutPath,
    pub project_id: Id,
}
pub struct LockFile;
pub struct ProjectInput {
    pub root: Option<ResourcePath>,
    pub main: ResourcePath,
}
impl LockFile {
    pub fn get_document(&self, _: &Id) -> Option<&ProjectInput> {
        None
    }
}
impl ProjectRouteState {
    pub fn resolve(&mut self, _: &ImmutPath) -> Option<ProjectResolution> {
        None
    }
    pub fn locate(&self, _: &ProjectResolution) -> Option<Arc<LockFile>> {
        let _ = PathBuf::new();
        None
    }
}
