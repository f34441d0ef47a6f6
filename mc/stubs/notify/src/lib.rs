//! The part of `notify` the code under test uses. The watcher here watches
//! nothing: whoever drives the execution asks which paths are watched and
//! emits the events.

use std::cell::RefCell;
use std::fmt;
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum CreateKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum DataChange {
        Any,
        Size,
        Content,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum MetadataKind {
        Any,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RenameMode {
        Any,
        To,
        From,
        Both,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum ModifyKind {
        Any,
        Data(DataChange),
        Metadata(MetadataKind),
        Name(RenameMode),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RemoveKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AccessKind {
        Any,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum EventKind {
        Any,
        Access(AccessKind),
        Create(CreateKind),
        Modify(ModifyKind),
        Remove(RemoveKind),
        Other,
    }
    impl EventKind {
        pub fn is_remove(&self) -> bool {
            matches!(self, EventKind::Remove(_))
        }
        pub fn is_modify(&self) -> bool {
            matches!(self, EventKind::Modify(_))
        }
        pub fn is_create(&self) -> bool {
            matches!(self, EventKind::Create(_))
        }
        pub fn is_access(&self) -> bool {
            matches!(self, EventKind::Access(_))
        }
        pub fn is_other(&self) -> bool {
            matches!(self, EventKind::Other)
        }
    }
}
pub use event::EventKind;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Event {
    pub kind: EventKind,
    pub paths: Vec<PathBuf>,
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Config;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}

pub trait EventHandler: Send + 'static {
    fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn handle_event(&mut self, event: Result<Event>) {
        self(event)
    }
}

pub trait Watcher {
    fn new<F: EventHandler>(event_handler: F, config: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, path: &Path, recursive_mode: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, path: &Path) -> Result<()>;
}

#[derive(Debug)]
pub struct RecommendedWatcher(());

#[derive(Default)]
struct World {
    handler: Option<Box<dyn EventHandler>>,
    watched: Vec<PathBuf>,
    /// Watching fails from now on.
    broken: bool,
    log: Vec<String>,
}
thread_local!(static WORLD: RefCell<World> = RefCell::default());

impl Watcher for RecommendedWatcher {
    fn new<F: EventHandler>(event_handler: F, _: Config) -> Result<Self> {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            if w.broken {
                return Err(Error("no watcher".into()));
            }
            w.handler = Some(Box::new(event_handler));
            Ok(RecommendedWatcher(()))
        })
    }
    fn watch(&mut self, path: &Path, _: RecursiveMode) -> Result<()> {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            if !path.exists() {
                return Err(Error(format!("{}: not found", path.display())));
            }
            w.log.push(format!("+{}", path.display()));
            if !w.watched.iter().any(|p| p == path) {
                w.watched.push(path.into());
            }
            Ok(())
        })
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            w.log.push(format!("-{}", path.display()));
            match w.watched.iter().position(|p| p == path) {
                Some(i) => {
                    w.watched.remove(i);
                    Ok(())
                }
                None => Err(Error(format!("{}: not watched", path.display()))),
            }
        })
    }
}

impl Drop for RecommendedWatcher {
    fn drop(&mut self) {
        let _ = WORLD.try_with(|w| {
            if let Ok(mut w) = w.try_borrow_mut() {
                w.watched.clear();
                w.handler = None;
            }
        });
    }
}

/// What the driver of an execution does.
pub mod driver {
    use super::*;

    pub fn reset() {
        let old = WORLD.with(|w| std::mem::take(&mut *w.borrow_mut()));
        std::mem::forget(old);
    }
    pub fn set_broken() {
        WORLD.with(|w| w.borrow_mut().broken = true);
    }
    pub fn watched(path: &Path) -> bool {
        WORLD.with(|w| w.borrow().watched.iter().any(|p| p == path))
    }
    /// The file the watch was for is gone.
    pub fn lost(path: &Path) {
        WORLD.with(|w| w.borrow_mut().watched.retain(|p| p != path));
    }
    pub fn log() -> Vec<String> {
        WORLD.with(|w| w.borrow().log.clone())
    }
    pub fn emit(event: Result<Event>) -> bool {
        let h = WORLD.with(|w| w.borrow_mut().handler.take());
        let Some(mut h) = h else { return false };
        h.handle_event(event);
        WORLD.with(|w| w.borrow_mut().handler = Some(h));
        true
    }
}
