//! W01: what the watcher tells about files.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use notify::driver;
use notify::event::{CreateKind, DataChange, MetadataKind, ModifyKind, RemoveKind, RenameMode};
use notify::{Event, EventKind};
use tinymist_project::watch_deps;
use tinymist_vfs::notify::{FilesystemEvent, NotifyMessage, UpstreamUpdateEvent};
use tinymist_vfs::{FileSnapshot, ImmutPath};
use tokio::sync::mpsc;
use typst::diag::FileError;

/// A scratch directory of the calling worker, emptied for each execution.
pub struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let dir = PathBuf::from(format!("/dev/shm/mc-world-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("a scratch directory");
        Scratch(dir)
    }
    /// The directory of this worker, empty.
    pub fn dir() -> PathBuf {
        thread_local!(static DIR: RefCell<Option<Scratch>> = const { RefCell::new(None) });
        DIR.with(|d| {
            let mut d = d.borrow_mut();
            let s = d.get_or_insert_with(Scratch::new);
            for e in std::fs::read_dir(&s.0).expect("the scratch directory").flatten() {
                let p = e.path();
                let _ = std::fs::remove_file(&p);
                let _ = std::fs::remove_dir(&p);
            }
            s.0.clone()
        })
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Held {
    Text(String),
    Gone,
    Odd(String),
}
pub fn disk(p: &Path) -> Held {
    if p.is_dir() {
        return held_err(&FileError::IsDirectory);
    }
    match std::fs::read(p) {
        Ok(b) => Held::Text(String::from_utf8_lossy(&b).into_owned()),
        Err(e) => held_err(&FileError::from_io(e, p)),
    }
}
fn held_err(e: &FileError) -> Held {
    match e {
        FileError::NotFound(_) => Held::Gone,
        e => Held::Odd(format!("{e:?}")),
    }
}
pub fn held(s: &FileSnapshot) -> Held {
    match s.content() {
        Ok(b) => Held::Text(String::from_utf8_lossy(b).into_owned()),
        Err(e) => held_err(&e),
    }
}
fn blank(h: &Held) -> bool {
    *h == Held::Gone || *h == Held::Text(String::new())
}

/// What is known outside of the watcher.
#[derive(Default)]
struct Out {
    /// What the watcher said about files.
    view: BTreeMap<PathBuf, Held>,
    /// Files that changed since the watcher was last told of.
    dirty: BTreeSet<PathBuf>,
    /// When the file became empty or vanished.
    blank_since: BTreeMap<PathBuf, u64>,
    /// The same before changes that a busy watcher may not have seen.
    hidden_since: BTreeMap<PathBuf, u64>,
    /// Files that are to be watched: the consumer depends on them, and they
    /// were there when it said so.
    watched: BTreeSet<PathBuf>,
    /// What the consumer depends on.
    deps: Vec<ImmutPath>,
    /// Files the watcher was ever told of.
    asked: BTreeSet<PathBuf>,
    forgotten: BTreeSet<PathBuf>,
    broken: bool,
    upstream: Vec<usize>,
    failed: Option<Fail>,
    log: Vec<String>,
    ended: bool,
}

fn received(o: &mut Out, ev: FilesystemEvent) {
    let fail = |o: &mut Out, sig: &str, m: String| {
        if o.failed.is_none() {
            o.failed = Some(Fail::new(sig, m));
        }
    };
    if o.ended {
        fail(o, "reports after it ended", format!("{ev:?}"));
    }
    let (changes, upstream) = ev.split();
    if let Some(u) = upstream {
        match u.opaque.downcast_ref::<usize>() {
            Some(n) => {
                o.log.push(format!("upstream {n}"));
                if o.upstream.last().map_or(0, |l| l + 1) != *n {
                    let m = format!("{n} after {:?}", o.upstream);
                    fail(o, "upstream updates out of order", m);
                }
                o.upstream.push(*n);
            }
            None => fail(o, "an upstream update is changed", String::new()),
        }
    } else if changes.is_empty() {
        fail(o, "an empty report", String::new());
    }
    for p in changes.removes {
        o.log.push(format!("forget {:?}", p.file_name().unwrap()));
        // The consumer reads it by itself from now on.
        o.view.remove(&*p);
        o.forgotten.insert(p.to_path_buf());
    }
    for (p, s) in changes.inserts {
        let now = held(&s);
        o.log.push(format!("{:?} is {now:?} at {}", p.file_name().unwrap(), rt::now()));
        if !o.asked.contains(&*p) {
            fail(o, "reports a file nobody asked for", format!("{p:?}"));
        }
        let was = o.view.insert(p.to_path_buf(), now.clone());
        if !o.broken && blank(&now) && was.is_some_and(|w| matches!(w, Held::Text(t) if !t.is_empty())) {
            // While it is saved, a file may be empty or missing for a moment.
            let since = o.blank_since.get(&*p).copied();
            if since.is_none_or(|s| rt::now() < s + 50) || !blank(&disk(&p)) {
                let m = format!("{:?} {now:?} since {since:?}, now {}", p.file_name().unwrap(), rt::now());
                fail(o, "a file counts as emptied while it is saved", m);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// Writes in place.
    Write(usize, &'static str),
    Remove(usize),
    /// Writes another file and renames it over.
    Replace(usize, &'static str),
    RenameAway(usize),
    Mkdir(usize),
    /// The files are what the consumer depends on.
    Deps(&'static [usize]),
    Upstream(&'static [usize]),
    /// Many messages about other files.
    Age,
    Wait(u64),
    /// An error of the watcher, and an event for an unknown file.
    Strange,
}

struct Sys {
    files: [PathBuf; 2],
    out: Arc<Mutex<Out>>,
    tx: mpsc::UnboundedSender<NotifyMessage>,
    sent: usize,
    /// The consumer asks again after each report.
    auto: bool,
}

fn sync(tx: &mpsc::UnboundedSender<NotifyMessage>, out: &Mutex<Out>) {
    let deps = {
        let mut o = out.lock().unwrap();
        let deps = o.deps.clone();
        o.watched = deps.iter().filter(|d| d.is_file()).map(|d| d.to_path_buf()).collect();
        for d in &deps {
            o.dirty.remove(&**d);
            o.asked.insert(d.to_path_buf());
        }
        deps
    };
    let _ = tx.send(NotifyMessage::SyncDependency(Box::new(deps)));
}

impl Sys {
    fn new(auto: bool, broken: bool) -> Self {
        driver::reset();
        if broken {
            driver::set_broken();
        }
        let dir = Scratch::dir();
        let files = [dir.join("a.typ"), dir.join("b.typ")];
        let out = Arc::new(Mutex::new(Out { broken, ..Default::default() }));
        let (tx, rx) = mpsc::unbounded_channel();
        let (o2, tx2) = (out.clone(), tx.clone());
        rt::block_on(watch_deps(rx, move |ev| {
            received(&mut o2.lock().unwrap(), ev);
            // A change leads to a compilation, and that to a list of files.
            if auto {
                sync(&tx2, &o2);
            }
        }));
        Sys { files, out, tx, sent: 0, auto }
    }

    fn changed(&self, i: usize, events: &[EventKind]) {
        let p = &self.files[i];
        {
            let mut o = self.out.lock().unwrap();
            if blank(&disk(p)) {
                let since = o.hidden_since.get(p).copied().unwrap_or(rt::now());
                o.blank_since.entry(p.clone()).or_insert(since);
            } else if driver::watched(p) && matches!(disk(p), Held::Text(_)) {
                // Otherwise the watcher cannot know, or the file is still not there.
                o.blank_since.remove(p);
            }
            o.dirty.insert(p.clone());
        }
        for kind in events {
            if driver::watched(p) {
                self.out.lock().unwrap().dirty.remove(p);
                driver::emit(Ok(Event { kind: *kind, paths: vec![p.clone()] }));
            }
        }
    }

    fn run(&mut self, op: Op) {
        let data = EventKind::Modify(ModifyKind::Data(DataChange::Any));
        let meta = EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any));
        let gone = EventKind::Remove(RemoveKind::File);
        match op {
            Op::Write(i, s) => {
                let _ = std::fs::remove_dir(&self.files[i]);
                let new = !self.files[i].exists();
                std::fs::write(&self.files[i], s).unwrap();
                self.changed(i, &[if new { EventKind::Create(CreateKind::File) } else { data }]);
            }
            Op::Remove(i) => {
                if std::fs::remove_file(&self.files[i]).is_ok() {
                    let was = driver::watched(&self.files[i]);
                    driver::lost(&self.files[i]);
                    self.removed(i, was, &[meta, gone]);
                }
            }
            Op::RenameAway(i) => {
                let mut to = self.files[i].clone();
                to.set_extension("bak");
                if std::fs::rename(&self.files[i], &to).is_ok() {
                    // The watch moves with the file, and `notify` drops it.
                    let was = driver::watched(&self.files[i]);
                    driver::lost(&self.files[i]);
                    self.removed(i, was, &[EventKind::Modify(ModifyKind::Name(RenameMode::From))]);
                }
            }
            Op::Replace(i, s) => {
                let mut tmp = self.files[i].clone();
                tmp.set_extension("tmp");
                let _ = std::fs::remove_dir(&self.files[i]);
                std::fs::write(&tmp, s).unwrap();
                std::fs::rename(&tmp, &self.files[i]).unwrap();
                let was = driver::watched(&self.files[i]);
                driver::lost(&self.files[i]);
                self.removed(i, was, &[meta, gone]);
            }
            Op::Mkdir(i) => {
                let _ = std::fs::remove_file(&self.files[i]);
                if std::fs::create_dir(&self.files[i]).is_ok() {
                    let was = driver::watched(&self.files[i]);
                    driver::lost(&self.files[i]);
                    self.removed(i, was, &[meta, gone]);
                }
            }
            Op::Deps(fs) => {
                self.out.lock().unwrap().deps = fs.iter().map(|i| self.files[*i].as_path().into()).collect();
                sync(&self.tx, &self.out);
            }
            Op::Upstream(fs) => {
                let invalidates: Vec<ImmutPath> = fs.iter().map(|i| self.files[*i].as_path().into()).collect();
                {
                    let mut o = self.out.lock().unwrap();
                    for p in &invalidates {
                        o.dirty.remove(&**p);
                        o.asked.insert(p.to_path_buf());
                    }
                }
                let opaque = Box::new(self.sent);
                self.sent += 1;
                let _ = self.tx.send(NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent { invalidates, opaque }));
            }
            Op::Age => {
                for _ in 0..31 {
                    let none: Vec<ImmutPath> = vec![];
                    let _ = self.tx.send(NotifyMessage::SyncDependency(Box::new(none)));
                }
                self.out.lock().unwrap().watched.clear();
                // Whoever depends on files says so again.
                if self.auto {
                    sync(&self.tx, &self.out);
                }
            }
            Op::Wait(ms) => rt::sleep("wait", ms),
            Op::Strange => {
                driver::emit(Err(notify::Error("watching fails".into())));
                driver::emit(Ok(Event { kind: data, paths: vec!["/nowhere/x".into()] }));
                driver::emit(Ok(Event { kind: gone, paths: vec![] }));
            }
        }
    }

    /// As `changed`, after the watch was lost.
    fn removed(&self, i: usize, was: bool, events: &[EventKind]) {
        self.changed(i, &[]);
        if !was || !self.files[i].is_file() {
            self.out.lock().unwrap().watched.remove(&self.files[i]);
        }
        if was {
            let mut o = self.out.lock().unwrap();
            o.dirty.remove(&self.files[i]);
            if !blank(&disk(&self.files[i])) && matches!(disk(&self.files[i]), Held::Text(_)) {
                o.blank_since.remove(&self.files[i]);
            }
            drop(o);
            for kind in events {
                driver::emit(Ok(Event { kind: *kind, paths: vec![self.files[i].clone()] }));
            }
        }
    }

    fn check(&self) -> Result<(), Fail> {
        let mut o = self.out.lock().unwrap();
        if let Some(f) = o.failed.take() {
            return Err(Fail::new(&f.sig, format!("{}; {:?}", f.msg, o.log)));
        }
        for p in &self.files {
            if !o.broken && !o.ended && o.watched.contains(p) && !driver::watched(p) {
                return Err(Fail::new("a file is not watched any more", format!("{:?}; {:?}", p.file_name().unwrap(), o.log)));
            }
            if o.dirty.contains(p) {
                continue;
            }
            if let Some(v) = o.view.get(p) {
                if *v != disk(p) {
                    return Err(Fail::new(
                        "a file's last change is never told",
                        format!("{:?} is {:?}, was told to be {v:?}; {:?}", p.file_name().unwrap(), disk(p), o.log),
                    ));
                }
            } else if o.deps.iter().any(|d| **d == **p) && !o.forgotten.contains(p) {
                return Err(Fail::new("a file is not told of", format!("{:?}; {:?}", p.file_name().unwrap(), o.log)));
            }
        }
        if o.upstream.len() != self.sent {
            return Err(Fail::new("an upstream update is lost", format!("{:?} of {}", o.upstream, self.sent)));
        }
        Ok(())
    }
}

const A: usize = 0;
const B: usize = 1;
const ONE: [Op; 14] = [
    Op::Write(A, "one"),
    Op::Write(A, "two"),
    Op::Write(A, ""),
    Op::Remove(A),
    Op::Replace(A, "three"),
    Op::Replace(A, ""),
    Op::RenameAway(A),
    Op::Mkdir(A),
    Op::Deps(&[A]),
    Op::Deps(&[]),
    Op::Upstream(&[A]),
    Op::Age,
    Op::Wait(20),
    Op::Wait(60),
];
const TWO: [Op; 13] = [
    Op::Write(A, "one"),
    Op::Write(A, ""),
    Op::Remove(A),
    Op::Write(B, "one"),
    Op::Write(B, ""),
    Op::Replace(B, "two"),
    Op::Deps(&[A, B]),
    Op::Deps(&[B]),
    Op::Upstream(&[A]),
    Op::Upstream(&[A, B]),
    Op::Wait(20),
    Op::Wait(60),
    Op::Strange,
];
/// What saving a file is made of.
const SAVES: [Op; 7] = [
    Op::Write(A, "one"),
    Op::Write(A, "two"),
    Op::Write(A, ""),
    Op::Remove(A),
    Op::Wait(20),
    Op::Wait(40),
    Op::Deps(&[A]),
];

/// Long enough, even if some timers are early.
fn wait_long() {
    for _ in 0..4 {
        rt::sleep("long", 100);
    }
}

fn history(ch: &mut Chooser, alphabet: &'static [Op], len: usize, broken: bool, hurry: bool) -> Result<(), Fail> {
    let auto = !broken && ch.choose("consumer asks again after each report", 2) == 0;
    let start = ch.choose("start", 3);
    let mut ops = vec![];
    match start {
        0 => {}
        1 => ops.extend([Op::Write(A, "zero"), Op::Deps(&[A])]),
        _ => ops.extend([Op::Write(A, "zero"), Op::Write(B, "zero"), Op::Deps(&[A, B])]),
    }
    let n = ops.len();
    for _ in 0..len {
        ops.push(*ch.pick("op", alphabet));
    }
    let o2 = ops.clone();
    let res = rt::run(ch, rt::Opts::default(), move || -> Result<Vec<String>, Fail> {
        let mut s = Sys::new(auto, broken);
        rt::sleep("start", 1);
        for (i, op) in o2.into_iter().enumerate() {
            rt::note(|| format!("{op:?}"));
            let before = s.out.lock().unwrap().blank_since.clone();
            s.run(op);
            // The watcher keeps up, unless it is a hurry.
            if i < n || !hurry || rt::deviate("goes on at once", 2) == 0 {
                rt::sleep("settle", 1);
            }
            if hurry {
                let mut o = s.out.lock().unwrap();
                for (p, since) in before {
                    o.hidden_since.entry(p).or_insert(since);
                }
            }
        }
        wait_long();
        s.check()?;
        let log = s.out.lock().unwrap().log.clone();
        // The end.
        let _ = s.tx.send(NotifyMessage::Settle);
        wait_long();
        s.out.lock().unwrap().ended = true;
        s.run(Op::Write(A, "late"));
        s.run(Op::Deps(&[A]));
        wait_long();
        s.out.lock().unwrap().dirty.extend(s.files.clone());
        s.check()?;
        Ok(log)
    });
    match (res.end, res.value) {
        (End::Done { .. }, Some(Ok(log))) => {
            ch.observe((ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>(), log));
            Ok(())
        }
        (_, Some(Err(f))) => Err(Fail::new(&f.sig, format!("{ops:?} auto {auto}: {}", f.msg))),
        (e, _) => Err(Fail::new("does not end well", format!("{ops:?} auto {auto}: {e:?} {:?}", res.panics))),
    }
}

pub fn watching(ctx: &mut Ctx) {
    let len = ctx.by(4, 5);
    ctx.explore(
        "watch-one-file",
        "histories",
        "every sequence of ways to change, save, remove and rename a file, of messages about it and of times between them",
        0,
        |ch| history(ch, &ONE, len, false, false),
    );
    ctx.explore(
        "watch-two-files",
        "histories",
        "every sequence of changes of and messages about two files, with errors of the watcher",
        0,
        |ch| history(ch, &TWO, len, false, false),
    );
    let len = ctx.by(5, 6);
    ctx.explore(
        "watch-saves",
        "histories",
        "longer sequences of the steps editors save in",
        0,
        |ch| history(ch, &SAVES, len, false, false),
    );
    ctx.explore(
        "watch-broken",
        "histories",
        "every sequence when no file can be watched",
        0,
        |ch| history(ch, &TWO, 3, true, false),
    );
    let text = "sequences of changes and messages while the watcher is busy, with every order in which it may take up what waits";
    ctx.explore("watch-schedules", "schedules", text, ctx.by(1, 2), |ch| history(ch, &TWO, 2, false, true));
    if ctx.by(0, 1) == 1 {
        ctx.explore("watch-longer-schedules", "schedules", text, 1, |ch| history(ch, &TWO, 3, false, true));
    }
}
