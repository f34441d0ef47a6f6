//! The language server's kind of worlds, above files in memory or real ones.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use tinymist_task::ExportTarget;
use tinymist_world::font::FontResolver;
use tinymist_world::package::{PackageError, PackageRegistry, PackageSpec, RegistryPathMapper};
use tinymist_world::vfs::notify::{FilesystemEvent, NotifyMessage};
use tinymist_world::vfs::{Bytes, FileChangeSet, PathAccessModel, Vfs};
use tinymist_world::{CompileSnapshot, CompilerFeat, CompilerUniverse, CompilerWorld, EntryState, WorldComputeGraph};
use tokio::sync::mpsc;
use typst::diag::{FileError, FileResult};
use typst::foundations::Dict;
use typst::text::{Font, FontBook};
use typst::utils::LazyHash;
use typst::Features;

use crate::{CompiledArtifact, Interrupt};

/// The files on the disk. They belong to the worker.
#[derive(Clone, Copy)]
pub struct MemDisk;
thread_local!(static DISK: RefCell<BTreeMap<PathBuf, String>> = RefCell::default());
impl MemDisk {
    pub fn set(files: impl IntoIterator<Item = (PathBuf, String)>) {
        DISK.with(|d| *d.borrow_mut() = files.into_iter().collect());
    }
    pub fn get(p: &Path) -> Option<String> {
        DISK.with(|d| d.borrow().get(p).cloned())
    }
}
impl PathAccessModel for MemDisk {
    fn content(&self, p: &Path) -> FileResult<Bytes> {
        MemDisk::get(p).map(Bytes::from_string).ok_or_else(|| FileError::NotFound(p.into()))
    }
}
pub struct NoFonts(LazyHash<FontBook>);
impl Default for NoFonts {
    fn default() -> Self {
        NoFonts(LazyHash::new(FontBook::new()))
    }
}
impl FontResolver for NoFonts {
    fn font_book(&self) -> &LazyHash<FontBook> {
        &self.0
    }
    fn font(&self, _: usize) -> Option<Font> {
        None
    }
}

impl NoFonts {
    pub fn font_paths(&self) -> &[PathBuf] {
        &[]
    }
}

/// A registry without packages.
#[derive(Default, Debug)]
pub struct DummyRegistry;
impl DummyRegistry {
    pub fn package_path(&self) -> Option<&Path> {
        None
    }
    pub fn package_cache_path(&self) -> Option<&Path> {
        None
    }
}
impl PackageRegistry for DummyRegistry {
    fn resolve(&self, spec: &PackageSpec) -> Result<Arc<Path>, PackageError> {
        Err(PackageError::NotFound(spec.clone()))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct LspCompilerFeat;
impl CompilerFeat for LspCompilerFeat {
    type FontResolver = NoFonts;
    type AccessModel = MemDisk;
    type Registry = DummyRegistry;
}

pub type LspUniverse = CompilerUniverse<LspCompilerFeat>;
pub type LspWorld = CompilerWorld<LspCompilerFeat>;
pub type LspCompileSnapshot = CompileSnapshot<LspCompilerFeat>;
pub type LspCompiledArtifact = CompiledArtifact<LspCompilerFeat>;
pub type LspComputeGraph = Arc<WorldComputeGraph<LspCompilerFeat>>;
pub type LspInterrupt = Interrupt<LspCompilerFeat>;
pub type ImmutDict = Arc<LazyHash<Dict>>;

pub struct LspUniverseBuilder;
impl LspUniverseBuilder {
    pub fn build(
        entry: EntryState,
        _: ExportTarget,
        features: Features,
        inputs: ImmutDict,
        packages: Arc<DummyRegistry>,
        fonts: Arc<NoFonts>,
    ) -> LspUniverse {
        let resolver = Arc::new(RegistryPathMapper::new(packages.clone()));
        CompilerUniverse::new_raw(entry, features, Some(inputs), Vfs::new(resolver, MemDisk), packages, fonts)
    }
    pub fn resolve_package<T>(_: Option<Arc<Path>>, _: T) -> Arc<DummyRegistry> {
        Arc::new(DummyRegistry)
    }
}

/// A watcher of files in memory, which never change: it tells what they hold
/// when it is asked.
pub async fn watch_disk(mut inbox: mpsc::UnboundedReceiver<NotifyMessage>, mut told: impl FnMut(FilesystemEvent) + Send) {
    let mut known = BTreeMap::<PathBuf, Option<String>>::new();
    let look = |known: &mut BTreeMap<PathBuf, Option<String>>, paths: &[PathBuf]| {
        let mut changes = FileChangeSet::default();
        for p in paths {
            let now = MemDisk::get(p);
            if known.insert(p.clone(), now.clone()) != Some(now) {
                changes.inserts.push((p.as_path().into(), MemDisk.content(p).into()));
            }
        }
        changes
    };
    while let Some(m) = inbox.recv().await {
        match m {
            NotifyMessage::Settle => {}
            NotifyMessage::SyncDependency(d) => {
                let mut paths = vec![];
                d.dependencies(&mut |p| paths.push(p.to_path_buf()));
                let changes = look(&mut known, &paths);
                if !changes.is_empty() {
                    told(FilesystemEvent::Update(changes));
                }
            }
            NotifyMessage::UpstreamUpdate(u) => {
                let paths: Vec<_> = u.invalidates.iter().map(|p| p.to_path_buf()).collect();
                let changeset = look(&mut known, &paths);
                told(FilesystemEvent::UpstreamUpdate { changeset, upstream_event: Some(u) });
            }
        }
    }
}
