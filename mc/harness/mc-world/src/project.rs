//! W02: projects show what their files hold.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use notify::driver;
use notify::event::{DataChange, MetadataKind, ModifyKind, RemoveKind};
use notify::{Event, EventKind};
use tinymist_project::{
    watch_deps, CompileHandler, CompileReasons, CompileReport, CompileServerOpts, CompiledArtifact, Interrupt, ProjectCompiler,
    ProjectInsId,
};
use tinymist_std::typst::TypstDocument;
use tinymist_task::ExportTarget;
use tinymist_vfs::notify::{FilesystemEvent, MemoryEvent, NotifyMessage};
use tinymist_vfs::system::SystemAccessModel;
use tinymist_vfs::{Bytes, FileChangeSet, FileId, FileSnapshot, ImmutPath, PathAccessModel, Vfs};
use tinymist_world::font::FontResolver;
use tinymist_world::package::registry::DummyRegistry;
use tinymist_world::package::RegistryPathMapper;
use tinymist_world::{CompilerFeat, CompilerUniverse, EntryState, TaskInputs};
use tokio::sync::mpsc;
use typst::diag::{FileError, FileResult};
use typst::foundations::{Dict, Value};
use typst::syntax::VirtualPath;
use typst::text::{Font, FontBook};
use typst::utils::LazyHash;
use typst::{Features, World};

use crate::view::ws;
use crate::watch::Scratch;

type Val = Option<&'static str>;

/// The files below the code under test: real ones, or these.
#[derive(Clone, Default)]
struct Files(Arc<Mutex<BTreeMap<PathBuf, Val>>>, bool);
impl Files {
    fn get(&self, p: &Path) -> Val {
        self.0.lock().unwrap().get(p).copied().flatten()
    }
}
fn snap(p: &Path, v: Val) -> FileSnapshot {
    bytes(p, v).into()
}
fn bytes(p: &Path, v: Val) -> FileResult<Bytes> {
    v.map(|v| Bytes::new(v.as_bytes().to_vec())).ok_or_else(|| FileError::NotFound(p.into()))
}
impl PathAccessModel for Files {
    fn content(&self, p: &Path) -> FileResult<Bytes> {
        if self.1 {
            return SystemAccessModel.content(p);
        }
        bytes(p, self.get(p))
    }
}

struct Fonts(LazyHash<FontBook>);
impl FontResolver for Fonts {
    fn font_book(&self) -> &LazyHash<FontBook> {
        &self.0
    }
    fn font(&self, _: usize) -> Option<Font> {
        None
    }
}

struct Feat;
impl CompilerFeat for Feat {
    type FontResolver = Fonts;
    type AccessModel = Files;
    type Registry = DummyRegistry;
}

type Artifact = CompiledArtifact<Feat>;
type Compiler = ProjectCompiler<Feat, Ext>;

/// What the server keeps for each project.
#[derive(Default)]
struct Ext {
    notified: usize,
    compiling: bool,
    last: Option<Artifact>,
    /// The last document without errors, since the entry was set.
    good: Option<String>,
    /// Whether the entry was set during a compilation.
    mixed: bool,
}

type Task = Box<dyn FnOnce() -> Artifact + Send>;

/// Starts compilations like the language server does.
#[derive(Default)]
struct Handler {
    /// Whether compilations are skipped if no file of theirs changed.
    skips: bool,
    started: Mutex<VecDeque<(ProjectInsId, Task)>>,
    finished: Mutex<VecDeque<Artifact>>,
    removed: Mutex<Vec<ProjectInsId>>,
}
struct Handle(Arc<Handler>);
impl CompileHandler<Feat, Ext> for Handle {
    fn on_any_compile_reason(&self, c: &mut Compiler) {
        let handler = c.handler.clone();
        for s in c.projects() {
            if s.ext.compiling {
                continue;
            }
            let files = CompileReasons { by_memory_events: true, by_fs_events: true, by_entry_update: false };
            if self.0.skips && s.reason.any() && !s.reason.exclude(files).any() {
                if let Some(last) = &s.ext.last {
                    let rev = last.world().vfs().revision();
                    let deps = last.depended_files().clone();
                    if s.verse.vfs().is_clean_compile(rev.get(), &deps) {
                        s.reason = CompileReasons::default();
                        continue;
                    }
                }
            }
            if let Some(f) = s.may_compile(&handler) {
                s.ext.compiling = true;
                self.0.started.lock().unwrap().push_back((s.id.clone(), Box::new(f)));
            }
        }
    }
    fn notify_compile(&self, a: &Artifact) {
        self.0.finished.lock().unwrap().push_back(a.clone());
    }
    fn notify_removed(&self, id: &ProjectInsId) {
        self.0.removed.lock().unwrap().push(id.clone());
    }
    fn status(&self, _: usize, _: CompileReport) {}
}

/// A watcher as W01 says it is.
#[derive(Default)]
struct Watcher {
    deps: BTreeSet<PathBuf>,
    watched: BTreeSet<PathBuf>,
    told: BTreeMap<PathBuf, Val>,
    events: VecDeque<FilesystemEvent>,
    /// Files that changed since the watcher last looked.
    dirty: BTreeSet<PathBuf>,
}
impl Watcher {
    fn look(&mut self, disk: &Files, paths: &[PathBuf]) -> FileChangeSet {
        let mut changes = FileChangeSet::default();
        for p in paths {
            let now = disk.get(p);
            if now.is_some() {
                self.watched.insert(p.clone());
            }
            self.dirty.remove(p);
            if self.told.insert(p.clone(), now) != Some(now) {
                changes.inserts.push((p.as_path().into(), snap(p, now)));
            }
        }
        changes
    }
    fn take(&mut self, disk: &Files, m: NotifyMessage) {
        match m {
            NotifyMessage::Settle => {}
            NotifyMessage::SyncDependency(d) => {
                let mut deps = BTreeSet::new();
                d.dependencies(&mut |p| {
                    deps.insert(p.to_path_buf());
                });
                self.watched.retain(|p| deps.contains(p));
                let changes = self.look(disk, &deps.iter().cloned().collect::<Vec<_>>());
                self.deps = deps;
                if !changes.is_empty() {
                    self.events.push_back(FilesystemEvent::Update(changes));
                }
            }
            NotifyMessage::UpstreamUpdate(u) => {
                let paths: Vec<PathBuf> = u.invalidates.iter().map(|p| p.to_path_buf()).collect();
                let changeset = self.look(disk, &paths);
                self.events.push_back(FilesystemEvent::UpstreamUpdate { changeset, upstream_event: Some(u) });
            }
        }
    }
    fn changed(&mut self, disk: &Files, p: &Path) {
        if !self.watched.contains(p) {
            self.dirty.insert(p.into());
            return;
        }
        let now = disk.get(p);
        if self.told.insert(p.into(), now) != Some(now) {
            let mut changes = FileChangeSet::default();
            changes.inserts.push((p.into(), snap(p, now)));
            self.events.push_back(FilesystemEvent::Update(changes));
        }
        if now.is_none() {
            self.watched.remove(p);
        }
    }
}

const M: usize = 0;
const A: usize = 1;
const B: usize = 2;
const PATHS: [&str; 3] = ["/w/m.typ", "/w/a.typ", "/w/b.typ"];
const NAMES: [&str; 3] = ["m.typ", "a.typ", "b.typ"];

const M1: &str = "m1\n#include a.typ";
const M2: &str = "m2\n#read b.typ\n#input k";
const A1: &str = "a1";
const A2: &str = "a2\n#include b.typ";
const B1: &str = "b1";
const B2: &str = "b2";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// An editor's buffer is opened or changed.
    Edit(usize, &'static str),
    Close(usize),
    /// The open buffers are exactly these.
    Sync(&'static [(usize, &'static str)]),
    Disk(usize, Val),
    /// The watcher takes its next message.
    Watch,
    /// The compiler takes the watcher's next event.
    Told,
    /// The nth compilation that has started runs.
    Run(usize),
    /// The compiler takes the next compiled artifact.
    Compiled,
    Compile(&'static str),
    Restart(usize),
    Settle(&'static str),
    Entry(&'static str, Option<usize>),
    Input(&'static str, &'static str),
    Font,
    Drain,
}

/// What a project compiles.
#[derive(Clone, Debug)]
struct Proj {
    entry: Option<usize>,
    input: Option<&'static str>,
}

struct Sys {
    c: Compiler,
    h: Arc<Handler>,
    disk: Files,
    rx: mpsc::UnboundedReceiver<NotifyMessage>,
    w: Watcher,
    /// The buffers after each memory event.
    buffers: Vec<BTreeMap<usize, &'static str>>,
    seen: BTreeMap<ProjectInsId, usize>,
    projects: BTreeMap<&'static str, Proj>,
    /// How often the second project was removed.
    removed: usize,
    log: Vec<String>,
}

/// A compiler that has started its first compilation.
fn compiler(root: &Path, files: Files, skips: bool) -> (Compiler, Arc<Handler>, mpsc::UnboundedReceiver<NotifyMessage>) {
    let registry = Arc::new(DummyRegistry);
    let resolver = Arc::new(RegistryPathMapper::new(registry.clone()));
    let verse = CompilerUniverse::<Feat>::new_raw(
        entry(root, Some(M)),
        Features::default(),
        None,
        Vfs::new(resolver, files),
        registry,
        Arc::new(Fonts(LazyHash::new(FontBook::new()))),
    );
    let (tx, rx) = mpsc::unbounded_channel();
    let h = Arc::new(Handler { skips, ..Default::default() });
    let opts = CompileServerOpts {
        handler: Arc::new(Handle(h.clone())),
        enable_watch: true,
        export_target: ExportTarget::Paged,
    };
    let mut c = ProjectCompiler::new(verse, tx, opts);
    c.primary.reason.by_entry_update = true;
    let handler = c.handler.clone();
    handler.on_any_compile_reason(&mut c);
    (c, h, rx)
}

fn entry(root: &Path, e: Option<usize>) -> EntryState {
    EntryState::new_rooted(root.into(), e.map(|e| VirtualPath::new(NAMES[e])))
}
fn id(p: &str) -> ProjectInsId {
    ProjectInsId(p.into())
}
fn file(root: &Path, f: usize) -> FileId {
    ws(root.to_str().unwrap(), NAMES[f])
}

/// What a compilation shows, and what it reads.
fn eval(root: &Path, read: &dyn Fn(usize) -> Option<String>, f: usize, input: Option<&str>, route: &mut Vec<usize>, deps: &mut BTreeSet<usize>) -> Option<String> {
    if route.contains(&f) {
        return None;
    }
    deps.insert(f);
    let text = read(f)?;
    route.push(f);
    let mut out = format!("[{:?}|", file(root, f));
    for line in text.lines() {
        let (word, arg) = line.split_once(' ').unwrap_or((line, ""));
        let of = || NAMES.iter().position(|n| *n == arg).unwrap();
        match word {
            "#include" => out += &eval(root, read, of(), input, route, deps)?,
            "#read" => {
                deps.insert(of());
                out += &format!("<{:?}|{}>", file(root, of()), read(of())?);
            }
            "#input" => out += &format!("{:?}", input.map_or(Value::None, |s| Value::Str(s.into()))),
            _ => {
                out += line;
                out.push(';');
            }
        }
    }
    route.pop();
    Some(out + "]")
}

fn text(d: &TypstDocument) -> String {
    match d {
        TypstDocument::Paged(d) => d.pages.iter().map(|p| p.text.as_str()).collect(),
        TypstDocument::Html(d) => d.text.clone(),
    }
}

/// As the language server handles an artifact.
fn compiled(c: &mut Compiler, a: Artifact) {
    let rev = a.world().revision().get();
    if let Some(p) = c.projects().find(|p| p.id == *a.id()) {
        if p.ext.notified < rev {
            p.ext.notified = rev;
            p.ext.compiling = false;
            if let Some(d) = &a.doc {
                p.ext.good = Some(text(d));
            }
            p.ext.last = Some(a.clone());
        }
    }
    c.process(Interrupt::Compiled(a));
}

impl Sys {
    fn new(skips: bool, disk: [Val; 3]) -> Self {
        let files = Files::default();
        for (p, v) in PATHS.iter().zip(disk) {
            files.0.lock().unwrap().insert(p.into(), v);
        }
        let (c, h, rx) = compiler(Path::new("/w"), files.clone(), skips);
        Sys {
            c,
            h,
            disk: files,
            rx,
            w: Watcher::default(),
            buffers: vec![BTreeMap::new()],
            seen: BTreeMap::new(),
            projects: [("primary", Proj { entry: Some(M), input: None })].into(),
            removed: 0,
            log: vec![],
        }
    }

    fn memory(&mut self, sync: bool, inserts: &[(usize, &'static str)], removes: &[usize]) {
        let mut b = if sync { BTreeMap::new() } else { self.buffers.last().unwrap().clone() };
        for f in removes {
            b.remove(f);
        }
        b.extend(inserts.iter().copied());
        self.buffers.push(b);
        let set = FileChangeSet {
            removes: removes.iter().map(|f| Path::new(PATHS[*f]).into()).collect(),
            inserts: inserts.iter().map(|(f, s)| (Path::new(PATHS[*f]).into(), snap(Path::new(PATHS[*f]), Some(s)))).collect(),
        };
        self.c.process(Interrupt::Memory(if sync { MemoryEvent::Sync(set) } else { MemoryEvent::Update(set) }));
    }

    fn enabled(&self, op: Op) -> bool {
        match op {
            Op::Watch => !self.rx.is_empty(),
            Op::Told => !self.w.events.is_empty(),
            Op::Run(n) => self.h.started.lock().unwrap().len() > n,
            Op::Compiled => !self.h.finished.lock().unwrap().is_empty(),
            Op::Disk(f, v) => self.disk.get(Path::new(PATHS[f])) != v,
            _ => true,
        }
    }

    fn run(&mut self, op: Op) {
        match op {
            Op::Edit(f, s) => self.memory(false, &[(f, s)], &[]),
            Op::Close(f) => self.memory(false, &[], &[f]),
            Op::Sync(set) => self.memory(true, set, &[]),
            Op::Disk(f, v) => {
                let p = Path::new(PATHS[f]);
                self.disk.0.lock().unwrap().insert(p.into(), v);
                self.w.changed(&self.disk, p);
            }
            Op::Watch => {
                let m = self.rx.try_recv().expect("a message");
                self.w.take(&self.disk, m);
            }
            Op::Told => {
                let e = self.w.events.pop_front().expect("an event");
                self.c.process(Interrupt::Fs(e));
            }
            Op::Run(n) => {
                let (_, f) = self.h.started.lock().unwrap().remove(n).expect("a compilation");
                f();
            }
            Op::Compiled => {
                let a = self.h.finished.lock().unwrap().pop_front().expect("an artifact");
                compiled(&mut self.c, a);
            }
            Op::Compile(p) => self.c.process(Interrupt::Compile(id(p))),
            Op::Restart(e) => {
                // Inputs are those of the primary project.
                let input = self.projects["primary"].input;
                let got = self.c.restart_dedicate("d", entry(Path::new("/w"), Some(e)));
                assert_eq!(got.expect("a project"), id("d"));
                self.seen.remove(&id("d"));
                self.removed += self.projects.contains_key("d") as usize;
                self.projects.insert("d", Proj { entry: Some(e), input });
                // The preview asks for the first compilation.
                self.c.process(Interrupt::Compile(id("d")));
            }
            Op::Settle(p) => {
                self.c.process(Interrupt::Settle(id(p)));
                if p == "d" {
                    self.removed += self.projects.remove("d").is_some() as usize;
                    self.seen.remove(&id("d"));
                }
            }
            Op::Entry(p, e) => {
                let change = TaskInputs { entry: Some(entry(Path::new("/w"), e)), inputs: None };
                if let Some(s) = self.c.projects().find(|s| s.id == id(p)) {
                    s.ext.good = None;
                    s.ext.mixed |= s.ext.compiling;
                }
                self.c.process(Interrupt::ChangeTask(id(p), change));
                if let Some(p) = self.projects.get_mut(p) {
                    p.entry = e;
                }
            }
            Op::Input(p, v) => {
                let mut d = Dict::new();
                d.insert("k".into(), Value::Str(v.into()));
                let change = TaskInputs { entry: None, inputs: Some(Arc::new(LazyHash::new(d))) };
                self.c.process(Interrupt::ChangeTask(id(p), change));
                if let Some(p) = self.projects.get_mut(p) {
                    p.input = Some(v);
                }
            }
            Op::Font => self.c.process(Interrupt::Font(Arc::new(Fonts(LazyHash::new(FontBook::new()))))),
            Op::Drain => self.drain(),
        }
    }

    fn drain(&mut self) {
        for _ in 0..200 {
            let Some(op) = [Op::Watch, Op::Told, Op::Run(0), Op::Compiled].into_iter().find(|op| self.enabled(*op)) else {
                return;
            };
            self.run(op);
        }
        panic!("nothing ever settles: {:?}", self.log);
    }

    fn model(&self, p: &Proj) -> Option<(Option<String>, BTreeSet<usize>)> {
        let mut deps = BTreeSet::new();
        let b = self.buffers.last().unwrap();
        let read = |f: usize| b.get(&f).copied().or(self.disk.get(Path::new(PATHS[f]))).map(str::to_owned);
        let out = eval(Path::new("/w"), &read, p.entry?, p.input, &mut vec![], &mut deps);
        Some((out, deps))
    }

    /// Whether each project sees the buffers of some moment, none of which is
    /// before the last one.
    fn check_buffers(&mut self) -> Result<(), Fail> {
        let n = self.buffers.len() - 1;
        for p in self.c.projects() {
            let mut got = BTreeMap::new();
            let w = p.verse.snapshot();
            let open: Vec<PathBuf> = p.verse.vfs().shadow_paths().iter().map(|p| p.to_path_buf()).collect();
            for f in 0..3 {
                if open.iter().any(|o| *o == Path::new(PATHS[f])) {
                    got.insert(f, w.source(file(Path::new("/w"), f)).map(|s| s.text().to_owned()).unwrap_or_else(|e| format!("{e:?}")));
                }
            }
            let last = self.seen.get(&p.id).copied().unwrap_or(0);
            let is = |b: &BTreeMap<usize, &str>| b.len() == got.len() && b.iter().all(|(f, s)| got.get(f).is_some_and(|g| g == s));
            let Some(i) = (last..=n).find(|i| is(&self.buffers[*i])) else {
                return Err(Fail::new(
                    "buffers are never so, or were so before",
                    format!("{}: {got:?} after {:?}", p.id, &self.buffers[last..]),
                ));
            };
            self.seen.insert(p.id.clone(), i);
        }
        Ok(())
    }

    fn check_settled(&mut self, anyway: bool) -> Result<(), Fail> {
        let projects = self.projects.clone();
        let mut needed = BTreeSet::new();
        for (name, p) in &projects {
            let Some((want, deps)) = self.model(p) else { continue };
            needed.extend(deps.iter().copied());
            if !anyway && deps.iter().any(|d| self.w.dirty.contains(Path::new(PATHS[*d]))) {
                continue;
            }
            let fresh = self.w.dirty.clone();
            let Some(s) = self.c.projects().find(|s| s.id == id(name)) else {
                return Err(Fail::new("a project is lost", format!("{name}")));
            };
            if s.reason.any() || s.ext.compiling {
                return Err(Fail::new("a compilation is never done", format!("{name}: {:?} {}", s.reason, s.ext.compiling)));
            }
            let got = s.ext.last.as_ref().map(|a| a.doc.as_ref().map(text));
            if got != Some(want.clone()) {
                return Err(Fail::new(
                    "a project does not show what its files hold",
                    format!("{name}: {got:?} instead of {want:?}, dirty {fresh:?}"),
                ));
            }
            let good = s.ext.last.as_ref().unwrap().success_doc().as_ref().map(text);
            if good != s.ext.good && !s.ext.mixed {
                return Err(Fail::new("the last good document is another", format!("{name}: {good:?} instead of {:?}", s.ext.good)));
            }
            let errors = s.ext.last.as_ref().unwrap().error_cnt();
            if (errors > 0) != want.is_none() {
                return Err(Fail::new("errors are not those of the document", format!("{name}: {errors} {want:?}")));
            }
        }
        let names: BTreeSet<String> = self.c.projects().map(|p| p.id.to_string()).collect();
        if names != projects.keys().map(|k| k.to_string()).collect() {
            return Err(Fail::new("the projects are not those that were started", format!("{names:?}")));
        }
        let removed = self.h.removed.lock().unwrap().clone();
        if removed != vec![id("d"); self.removed] {
            return Err(Fail::new("removed projects are not told", format!("{removed:?}, {} were", self.removed)));
        }
        let dirty = self.projects.values().any(|p| {
            let deps = self.model(p).map(|m| m.1).unwrap_or_default();
            deps.iter().any(|d| self.w.dirty.contains(Path::new(PATHS[*d])))
        });
        if dirty && !anyway {
            return Ok(());
        }
        if let Some(f) = needed.iter().find(|f| !self.w.deps.contains(Path::new(PATHS[**f]))) {
            return Err(Fail::new("a file is not watched", format!("{}: {:?}", NAMES[*f], self.w.deps)));
        }
        Ok(())
    }
}

fn history(ch: &mut Chooser, setup: &[Op], alphabet: &'static [Op], len: usize) -> Result<(), Fail> {
    mcstdt::reset_statics();
    typst::syntax::reset_file_ids();
    let skips = ch.choose("skips what nothing changed for", 2) == 0;
    let mut s = Sys::new(skips, [Some(M1), Some(A1), Some(B1)]);
    let steps = |s: &mut Sys, op: Op| -> Result<(), Fail> {
        s.log.push(format!("{op:?}"));
        s.run(op);
        s.check_buffers()
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), Fail> {
        for op in setup {
            steps(&mut s, *op)?;
        }
        for _ in 0..len {
            let can: Vec<Op> = alphabet.iter().copied().filter(|op| s.enabled(*op)).collect();
            let op = can[ch.choose("op", can.len())];
            ch.note(|| format!("{op:?}"));
            steps(&mut s, op)?;
        }
        steps(&mut s, Op::Drain)?;
        s.check_settled(false)?;
        // Nothing stays wrong once it is asked for.
        for p in s.projects.clone().keys() {
            steps(&mut s, Op::Compile(p))?;
        }
        steps(&mut s, Op::Drain)?;
        s.check_settled(true)
    }));
    let log = &s.log;
    match res {
        Ok(Ok(())) => {
            ch.observe(format!("{log:?}"));
            Ok(())
        }
        Ok(Err(f)) => Err(Fail::new(&f.sig, format!("{} after {log:?}, skips {skips}", f.msg))),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(Fail::new("brings the process down", format!("{m:?} after {log:?}, skips {skips}")))
        }
    }
}

/// A compiler with the real watcher, on real files.
struct Live {
    dir: PathBuf,
    c: Compiler,
    h: Arc<Handler>,
    events: Arc<Mutex<VecDeque<FilesystemEvent>>>,
    buffers: BTreeMap<usize, &'static str>,
    /// Files that changed while nothing could watch them.
    dirty: BTreeSet<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Edit(usize, &'static str),
    Close(usize),
    /// Writes in place, after the file was empty for a moment.
    Save(usize, &'static str),
    /// Renames another file over.
    Replace(usize, &'static str),
    Remove(usize),
    /// The compiler takes one event of the watcher.
    Told,
    Run,
    Compiled,
    Wait(u64),
}

impl Live {
    fn new(skips: bool) -> Self {
        driver::reset();
        let dir = Scratch::dir();
        for (f, v) in [M1, A1, B1].iter().enumerate() {
            std::fs::write(dir.join(NAMES[f]), v).unwrap();
        }
        let (c, h, rx) = compiler(&dir, Files(Arc::default(), true), skips);
        let events = Arc::new(Mutex::new(VecDeque::new()));
        let e2 = events.clone();
        rt::block_on(watch_deps(rx, move |e| e2.lock().unwrap().push_back(e)));
        Live { dir, c, h, events, buffers: BTreeMap::new(), dirty: BTreeSet::new() }
    }
    fn memory(&mut self, f: usize, v: Option<&'static str>) {
        let p = self.dir.join(NAMES[f]);
        let mut set = FileChangeSet::default();
        match v {
            Some(v) => {
                self.buffers.insert(f, v);
                set.inserts.push((p.as_path().into(), snap(&p, Some(v))));
            }
            None => {
                self.buffers.remove(&f);
                set.removes.push(p.as_path().into());
            }
        }
        self.c.process(Interrupt::Memory(MemoryEvent::Update(set)));
    }
    fn emit(&mut self, f: usize, was: bool, kinds: &[EventKind]) {
        if !was {
            self.dirty.insert(f);
            return;
        }
        self.dirty.remove(&f);
        for kind in kinds {
            driver::emit(Ok(Event { kind: *kind, paths: vec![self.dir.join(NAMES[f])] }));
        }
    }
    fn enabled(&self, s: Step) -> bool {
        match s {
            Step::Told => !self.events.lock().unwrap().is_empty(),
            Step::Run => !self.h.started.lock().unwrap().is_empty(),
            Step::Compiled => !self.h.finished.lock().unwrap().is_empty(),
            Step::Remove(f) => self.dir.join(NAMES[f]).exists(),
            _ => true,
        }
    }
    fn run(&mut self, s: Step) {
        let data = EventKind::Modify(ModifyKind::Data(DataChange::Any));
        let meta = EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any));
        let gone = EventKind::Remove(RemoveKind::File);
        match s {
            Step::Edit(f, v) => self.memory(f, Some(v)),
            Step::Close(f) => self.memory(f, None),
            Step::Save(f, v) => {
                let p = self.dir.join(NAMES[f]);
                std::fs::write(&p, "").unwrap();
                self.emit(f, driver::watched(&p), &[data]);
                rt::sleep("saving", 5);
                std::fs::write(&p, v).unwrap();
                self.emit(f, driver::watched(&p), &[data]);
            }
            Step::Replace(f, v) => {
                let (p, tmp) = (self.dir.join(NAMES[f]), self.dir.join("tmp"));
                std::fs::write(&tmp, v).unwrap();
                std::fs::rename(&tmp, &p).unwrap();
                let was = driver::watched(&p);
                driver::lost(&p);
                self.emit(f, was, &[meta, gone]);
            }
            Step::Remove(f) => {
                let p = self.dir.join(NAMES[f]);
                std::fs::remove_file(&p).unwrap();
                let was = driver::watched(&p);
                driver::lost(&p);
                self.emit(f, was, &[meta, gone]);
            }
            Step::Told => {
                let e = self.events.lock().unwrap().pop_front().expect("an event");
                self.c.process(Interrupt::Fs(e));
            }
            Step::Run => {
                let (_, f) = self.h.started.lock().unwrap().pop_front().expect("a compilation");
                f();
            }
            Step::Compiled => {
                let a = self.h.finished.lock().unwrap().pop_front().expect("an artifact");
                compiled(&mut self.c, a);
            }
            Step::Wait(ms) => rt::sleep("wait", ms),
        }
    }
    fn drain(&mut self) {
        let mut quiet = 0;
        for _ in 0..400 {
            if let Some(s) = [Step::Told, Step::Run, Step::Compiled].into_iter().find(|s| self.enabled(*s)) {
                self.run(s);
                quiet = 0;
            } else if quiet < 4 {
                rt::sleep("drain", 40);
                quiet += 1;
            } else {
                return;
            }
        }
        panic!("nothing ever settles");
    }
    fn check(&mut self, anyway: bool) -> Result<(), Fail> {
        let mut deps = BTreeSet::new();
        let (b, dir) = (self.buffers.clone(), self.dir.clone());
        let read = |f: usize| b.get(&f).map(|s| s.to_string()).or(std::fs::read_to_string(dir.join(NAMES[f])).ok());
        let want = eval(&self.dir, &read, M, None, &mut vec![], &mut deps);
        if !anyway && deps.iter().any(|d| self.dirty.contains(d)) {
            return Ok(());
        }
        let s = &self.c.primary;
        let got = s.ext.last.as_ref().map(|a| a.doc.as_ref().map(text));
        if got != Some(want.clone()) {
            return Err(Fail::new("a project does not show what its files hold", format!("{got:?} instead of {want:?}")));
        }
        if let Some(f) = deps.iter().find(|f| {
            let p = self.dir.join(NAMES[**f]);
            p.is_file() && !driver::watched(&p)
        }) {
            return Err(Fail::new("a file is not watched", NAMES[*f].to_string()));
        }
        Ok(())
    }
}

fn live(ch: &mut Chooser, len: usize) -> Result<(), Fail> {
    let skips = ch.choose("skips what nothing changed for", 2) == 0;
    let mut steps = vec![];
    for _ in 0..len {
        let s = *ch.pick("step", &LIVE);
        steps.push((s, ch.choose("then", 3)));
    }
    let s2 = steps.clone();
    let res = rt::run(ch, rt::Opts::delays(), move || -> Result<(), Fail> {
        mcstdt::reset_statics();
        typst::syntax::reset_file_ids();
        let mut s = Live::new(skips);
        s.drain();
        for (step, then) in s2 {
            rt::note(|| format!("{step:?} {then}"));
            if s.enabled(step) {
                s.run(step);
            }
            match then {
                0 => s.drain(),
                1 => rt::sleep("settle", 1),
                _ => {}
            }
        }
        s.drain();
        s.check(false)?;
        s.c.process(Interrupt::Compile(id("primary")));
        s.drain();
        s.check(true)?;
        Ok(())
    });
    match (res.end, res.value) {
        (End::Done { .. }, Some(Ok(()))) => {
            ch.observe(format!("{steps:?}"));
            Ok(())
        }
        (_, Some(Err(f))) => Err(Fail::new(&f.sig, format!("{steps:?} skips {skips}: {}", f.msg))),
        (e, _) => Err(Fail::new("does not end well", format!("{steps:?} skips {skips}: {e:?} {:?}", res.panics))),
    }
}

const LIVE: [Step; 14] = [
    Step::Edit(A, A2),
    Step::Edit(A, A1),
    Step::Close(A),
    Step::Close(B),
    Step::Save(A, A1),
    Step::Save(A, A2),
    Step::Save(M, M2),
    Step::Replace(A, A1),
    Step::Replace(A, A2),
    Step::Replace(B, B2),
    Step::Remove(A),
    Step::Told,
    Step::Run,
    Step::Compiled,
];
const FILES: [Op; 14] = [
    Op::Edit(M, M2),
    Op::Edit(A, A1),
    Op::Edit(A, A2),
    Op::Edit(B, B2),
    Op::Close(M),
    Op::Close(A),
    Op::Close(B),
    Op::Sync(&[]),
    Op::Sync(&[(A, A2)]),
    Op::Disk(A, None),
    Op::Disk(A, Some(A2)),
    Op::Disk(B, Some(B2)),
    Op::Disk(M, Some(M2)),
    Op::Drain,
];
const RACES: [Op; 11] = [
    Op::Edit(A, A1),
    Op::Edit(A, A2),
    Op::Close(A),
    Op::Sync(&[(B, B2)]),
    Op::Disk(A, Some(A2)),
    Op::Disk(B, Some(B2)),
    Op::Watch,
    Op::Told,
    Op::Run(0),
    Op::Compiled,
    Op::Disk(A, None),
];
const DEDICATED: [Op; 15] = [
    Op::Restart(A),
    Op::Restart(M),
    Op::Settle("d"),
    Op::Settle("none"),
    Op::Compile("d"),
    Op::Edit(A, A2),
    Op::Close(A),
    Op::Run(0),
    Op::Run(1),
    Op::Compiled,
    Op::Watch,
    Op::Told,
    Op::Entry("primary", Some(B)),
    Op::Input("d", "v"),
    Op::Disk(B, Some(B2)),
];
const TASKS: [Op; 12] = [
    Op::Entry("primary", None),
    Op::Entry("primary", Some(A)),
    Op::Entry("d", Some(M)),
    Op::Entry("d", Some(B)),
    Op::Input("primary", "v"),
    Op::Input("primary", "u"),
    Op::Font,
    Op::Edit(M, M2),
    Op::Close(M),
    Op::Run(0),
    Op::Compiled,
    Op::Drain,
];

pub fn projects(ctx: &mut Ctx) {
    let d = &[Op::Drain];
    let len = ctx.by(4, 5);
    ctx.explore("project-files", "histories", "every sequence of edits, closed buffers, changes of files and pauses in which everything settles", 0, |ch| {
        history(ch, d, &FILES, len)
    });
    let len = ctx.by(6, 7);
    ctx.explore("project-races", "histories", "every order of edits and changes of files with the steps of the watcher, the compilations and the compiler", 0, |ch| {
        history(ch, d, &RACES, len)
    });
    let len = ctx.by(5, 6);
    ctx.explore("project-dedicated", "histories", "every order in which a second project is started again, settled and compiled", 0, |ch| {
        history(ch, d, &DEDICATED, len)
    });
    ctx.explore("project-tasks", "histories", "every sequence of changes of what the projects compile", 0, |ch| {
        history(ch, &[Op::Drain, Op::Restart(A), Op::Drain], &TASKS, len)
    });
    ctx.explore("project-with-watcher", "histories", "every sequence of edits and saves with the real watcher, on real files, in a hurry or not", 0, |ch| {
        live(ch, 3)
    });
    let len = ctx.by(1, 2);
    ctx.explore("project-watcher-schedules", "schedules", "edits and saves with every point at which the watcher, a timer or an eviction may come late", 1, |ch| {
        live(ch, len)
    });
}
