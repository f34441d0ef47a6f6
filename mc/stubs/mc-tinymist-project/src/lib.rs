//! The project crate, whose watcher watches files in memory.
pub use real::*;
pub use real::watch_disk as watch_deps;

/// No lock files are written.
pub struct LockUpdate;
pub fn update_lock<T>(_: T) -> LockUpdate {
    LockUpdate
}
impl LockUpdate {
    pub fn compiled<W>(&mut self, _: &W) -> Option<Id> {
        None
    }
    pub fn task(&mut self, _: ApplyProjectTask) {}
    pub fn commit(self) {}
}
