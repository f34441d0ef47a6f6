//! The previewed compilations of a project.
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompileStatus {
    Compiling,
    CompileSuccess,
    CompileError,
}
pub trait CompileView: Send + Sync {
    fn shown(&self) -> String;
}
#[derive(Default)]
pub struct CompileWatcher {
    pub statuses: Mutex<Vec<CompileStatus>>,
    pub views: Mutex<Vec<Arc<dyn CompileView>>>,
}
impl CompileWatcher {
    pub fn status(&self, s: CompileStatus) {
        self.statuses.lock().unwrap().push(s);
    }
    pub fn notify_compile(&self, v: Arc<dyn CompileView>) {
        self.views.lock().unwrap().push(v);
    }
}
