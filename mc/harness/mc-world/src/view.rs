//! V01: a view of the files is consistent, and a revision shows the changes.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use tinymist_vfs::{
    Bytes, FileChangeSet, FileId, FileSnapshot, ImmutPath, PathAccessModel, RootResolver, Vfs, WorkspaceResolver,
};
use typst::diag::{FileError, FileResult};
use typst::syntax::package::PackageSpec;
use typst::syntax::VirtualPath;

/// What a file holds; `None` is a missing file.
pub type Val = Option<&'static [u8]>;

pub const V: [&[u8]; 7] = [b"v0", b"v1", b"v2\n", b"\xef\xbb\xbfv3", b"v4 \xff", b"", b"v6\r\nv6"];

pub fn bytes(v: Val, path: &Path) -> FileResult<Bytes> {
    match v {
        Some(v) => Ok(Bytes::new(v.to_vec())),
        None => Err(FileError::NotFound(path.into())),
    }
}

/// The disk below the code under test.
#[derive(Clone, Default)]
pub struct Disk(Arc<Mutex<BTreeMap<PathBuf, Val>>>);
impl Disk {
    pub fn set(&self, path: &Path, v: Val) {
        self.0.lock().unwrap().insert(path.into(), v);
    }
    pub fn get(&self, path: &Path) -> Val {
        self.0.lock().unwrap().get(path).copied().flatten()
    }
}
impl PathAccessModel for Disk {
    fn content(&self, src: &Path) -> FileResult<Bytes> {
        if rt::active() {
            rt::point("open");
        }
        let v = self.get(src);
        if rt::active() {
            rt::point("read");
        }
        bytes(v, src)
    }
}

pub struct Roots;
impl RootResolver for Roots {
    fn resolve_package_root(&self, pkg: &PackageSpec) -> FileResult<ImmutPath> {
        if pkg.name == "gone" {
            return Err(FileError::Other(Some("no such package".into())));
        }
        Ok(Path::new("/pkg").join(pkg.name.as_str()).into())
    }
}

pub fn ws(root: &str, path: &str) -> FileId {
    WorkspaceResolver::workspace_file(Some(&Path::new(root).into()), VirtualPath::new(path))
}

type F = Vfs<Disk>;

/// What is seen of a file: the bytes and the text.
type Seen = (Result<Vec<u8>, String>, Result<String, String>);

fn see(vfs: &F, id: FileId, text_first: bool) -> Result<Seen, Fail> {
    let text = || match vfs.source(id) {
        Ok(s) if s.id() != id => Err(Fail::new("the source of another file", format!("{id:?}: {:?}", s.id()))),
        Ok(s) => Ok(Ok(s.text().to_owned())),
        Err(e) => Ok(Err(format!("{e:?}"))),
    };
    let data = || vfs.read(id).map(|b| b.to_vec()).map_err(|e| format!("{e:?}"));
    Ok(if text_first {
        let t = text()?;
        (data(), t)
    } else {
        let d = data();
        (d, text()?)
    })
}

/// The text of what was read.
fn decoded(data: &Result<Vec<u8>, String>) -> Result<String, String> {
    let b = data.as_ref().map_err(Clone::clone)?;
    let b = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(b);
    String::from_utf8(b.to_vec()).map_err(|_| format!("{:?}", FileError::InvalidUtf8))
}

/// The ids of the files and the paths they stand for.
pub struct Ids {
    all: Vec<(&'static str, FileId, Option<PathBuf>)>,
}
const A: usize = 0;
const A2: usize = 1;
const B: usize = 2;
const U: usize = 3;
impl Ids {
    fn new() -> Self {
        let pkg: PackageSpec = "@preview/p:0.1.0".parse().unwrap();
        let root: ImmutPath = Path::new("/w").into();
        Ids {
            all: vec![
                ("a", ws("/w", "/a.typ"), Some("/w/a.typ".into())),
                ("a again", ws("/", "/w/a.typ"), Some("/w/a.typ".into())),
                ("b", FileId::new(Some(pkg), VirtualPath::new("/b.typ")), Some("/pkg/p/b.typ".into())),
                (
                    "untitled",
                    WorkspaceResolver::rooted_untitled(Some(&root), VirtualPath::new("Untitled-1")),
                    None,
                ),
            ],
        }
    }
}

/// The layers a file is looked up in.
#[derive(Clone, Default, Debug)]
struct Layers {
    by_id: BTreeMap<usize, Val>,
    by_path: BTreeMap<PathBuf, Val>,
    notified: BTreeMap<PathBuf, Val>,
    /// What the disk held since nothing hides the file and it was last
    /// invalidated.
    disk: BTreeMap<PathBuf, BTreeSet<Val>>,
}
impl Layers {
    /// The contents a reader may get, or nothing if there is no access.
    fn allowed(&self, ids: &Ids, i: usize) -> Option<BTreeSet<Val>> {
        if let Some(v) = self.by_id.get(&i) {
            return Some([*v].into());
        }
        let path = ids.all[i].2.as_ref()?;
        if let Some(v) = self.by_path.get(path).or(self.notified.get(path)) {
            return Some([*v].into());
        }
        Some(self.disk.get(path).cloned().unwrap_or_else(|| [None].into()))
    }
}

struct View {
    vfs: F,
    layers: Layers,
    seen: BTreeMap<usize, Seen>,
    lineage: usize,
}
impl View {
    fn read(&mut self, ids: &Ids, i: usize, text_first: bool, whose: &str) -> Result<(), Fail> {
        let (name, id, path) = &ids.all[i];
        let seen = see(&self.vfs, *id, text_first)?;
        let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{whose}: {name}: {m}")));
        if seen.1 != decoded(&seen.0) {
            return bad("the text is not that of the bytes", format!("{seen:?}"));
        }
        if let Some(old) = self.seen.get(&i) {
            if *old != seen {
                return bad("a view changes", format!("{old:?}, then {seen:?}"));
            }
        }
        let allowed: Vec<_> = match self.layers.allowed(ids, i) {
            None => vec![Err(format!("{:?}", FileError::AccessDenied))],
            Some(vs) => vs
                .into_iter()
                .map(|v| {
                    // The error of a shadow names no path here.
                    let p = path.clone().unwrap_or_default();
                    bytes(v, &p).map(|b| b.to_vec()).map_err(|e| format!("{e:?}"))
                })
                .collect(),
        };
        if !allowed.contains(&seen.0) {
            return bad("not what the file holds", format!("{:?} instead of {allowed:?}", seen.0));
        }
        self.seen.insert(i, seen);
        Ok(())
    }
}

fn snap(v: Val, path: &Path) -> FileSnapshot {
    bytes(v, path).into()
}

fn history(ch: &mut Chooser, len: usize, rich: bool) -> Result<(), Fail> {
    thread_local!(static IDS: Ids = Ids::new());
    IDS.with(|ids| history_(ch, ids, len, rich))
}

fn history_(ch: &mut Chooser, ids: &Ids, len: usize, rich: bool) -> Result<(), Fail> {
    let disk = Disk::default();
    let path_a: ImmutPath = Path::new("/w/a.typ").into();
    let path_b: ImmutPath = Path::new("/pkg/p/b.typ").into();
    disk.set(&path_a, Some(V[0]));
    let mut layers = Layers::default();
    layers.disk.insert(path_a.to_path_buf(), [Some(V[0])].into());
    let mut cur = View { vfs: Vfs::new(Arc::new(Roots), disk.clone()), layers, seen: BTreeMap::new(), lineage: 0 };
    let mut old: Vec<View> = vec![];
    let mut evicted = false;
    let mut fresh = 1usize;
    let mut next = || {
        fresh += 1;
        match fresh % 5 {
            2 => Some(V[1]),
            3 => Some(V[2]),
            4 => Some(V[3]),
            0 => Some(V[4]),
            _ => Some(V[6]),
        }
    };
    const OPS: usize = 22;
    for _ in 0..len {
        let op = ch.choose("operation", if rich { OPS } else { OPS - 4 });
        // Everything but a read and a snapshot makes a new revision.
        let before = cur.vfs.revision();
        let renew = |cur: &mut View| {
            cur.seen.clear();
        };
        let mut changed: Vec<usize> = vec![];
        let put = |old: &mut Vec<View>, p: &ImmutPath, v: Val| {
            disk.set(p, v);
            for o in old {
                o.layers.disk.entry(p.to_path_buf()).or_insert_with(|| [None].into()).insert(v);
            }
        };
        let hide = |l: &mut Layers, d: &Disk, p: &ImmutPath| {
            l.disk.insert(p.to_path_buf(), [d.get(p)].into());
        };
        match op {
            0 | 1 => {
                let (p, is): (_, &[usize]) = if op == 0 { (&path_a, &[A, A2]) } else { (&path_b, &[B]) };
                let v = next();
                ch.note(|| format!("shadow {p:?} {v:?}"));
                cur.vfs.revise().map_shadow(p, snap(v, p)).unwrap();
                cur.layers.by_path.insert(p.to_path_buf(), v);
                hide(&mut cur.layers, &disk, p);
                changed.extend(is);
                renew(&mut cur);
            }
            2 => {
                ch.note(|| "unshadow a".into());
                cur.vfs.revise().unmap_shadow(&path_a).unwrap();
                if cur.layers.by_path.remove(&*path_a).is_some() {
                    hide(&mut cur.layers, &disk, &path_a);
                }
                changed.extend([A, A2]);
                renew(&mut cur);
            }
            3 | 4 => {
                let i = [A2, U][op - 3];
                let v = next();
                ch.note(|| format!("shadow id {} {v:?}", ids.all[i].0));
                cur.vfs.revise().map_shadow_by_id(ids.all[i].1, snap(v, &path_a)).unwrap();
                cur.layers.by_id.insert(i, v);
                changed.push(i);
                renew(&mut cur);
            }
            5 => {
                ch.note(|| "unshadow id a again".into());
                cur.vfs.revise().remove_shadow_by_id(ids.all[A2].1);
                cur.layers.by_id.remove(&A2);
                changed.push(A2);
                renew(&mut cur);
            }
            6 | 7 => {
                let v = if op == 6 { next() } else { None };
                ch.note(|| format!("notified a {v:?}"));
                put(&mut old, &path_a, v);
                let cs = FileChangeSet::new_inserts(vec![(path_a.clone(), snap(v, &path_a))]);
                cur.vfs.revise().notify_fs_changes(cs);
                cur.layers.notified.insert(path_a.to_path_buf(), v);
                hide(&mut cur.layers, &disk, &path_a);
                changed.extend([A, A2]);
                renew(&mut cur);
            }
            8 => {
                ch.note(|| "a is not watched any more".into());
                let v = next();
                put(&mut old, &path_a, v);
                cur.vfs.revise().notify_fs_changes(FileChangeSet::new_removes(vec![path_a.clone()]));
                cur.layers.notified.remove(&*path_a);
                hide(&mut cur.layers, &disk, &path_a);
                changed.extend([A, A2]);
                renew(&mut cur);
            }
            9 => {
                ch.note(|| "reset shadows".into());
                cur.vfs.revise().reset_shadow();
                for p in [&path_a, &path_b] {
                    if cur.layers.by_path.remove(&**p).is_some() {
                        hide(&mut cur.layers, &disk, p);
                        changed.extend((0..ids.all.len()).filter(|i| ids.all[*i].2.as_deref() == Some(&**p)));
                    }
                }
                changed.extend(std::mem::take(&mut cur.layers.by_id).into_keys());
                renew(&mut cur);
            }
            10 => {
                let v = next();
                ch.note(|| format!("disk changes a {v:?}"));
                put(&mut old, &path_a, v);
                cur.layers.disk.entry(path_a.to_path_buf()).or_default().insert(v);
            }
            11 => {
                ch.note(|| "read a".into());
                cur.read(ids, A, false, "now")?
            }
            12 => {
                ch.note(|| "read the text of a again".into());
                cur.read(ids, A2, true, "now")?
            }
            13 => {
                ch.note(|| "read b".into());
                cur.read(ids, B, false, "now")?
            }
            14 => {
                ch.note(|| "keep a view".into());
                old.push(View {
                    vfs: cur.vfs.snapshot(),
                    layers: cur.layers.clone(),
                    seen: cur.seen.clone(),
                    lineage: cur.lineage,
                });
            }
            15 => {
                ch.note(|| "read a in the old views".into());
                for v in &mut old {
                    v.read(ids, A, true, "old")?;
                }
            }
            16 => {
                ch.note(|| "read a again in the old views".into());
                for v in &mut old {
                    v.read(ids, A2, false, "old")?;
                }
            }
            17 => {
                ch.note(|| "one revision with two changes".into());
                let (v, w) = (next(), next());
                put(&mut old, &path_b, w);
                {
                    let mut r = cur.vfs.revise();
                    let cs = FileChangeSet::new_inserts(vec![(path_b.clone(), snap(w, &path_b))]);
                    r.map_shadow(&path_a, snap(v, &path_a)).unwrap();
                    r.notify_fs_changes(cs);
                }
                cur.layers.by_path.insert(path_a.to_path_buf(), v);
                cur.layers.notified.insert(path_b.to_path_buf(), w);
                changed.extend([A, A2, B]);
                renew(&mut cur);
            }
            18 => {
                ch.note(|| "drop the cached contents".into());
                cur.vfs.revise().reset_cache();
                hide(&mut cur.layers, &disk, &path_a);
                renew(&mut cur);
            }
            19 => {
                ch.note(|| "evict".into());
                cur.vfs.evict(0);
                cur.vfs.clone_source_cache().evict(cur.vfs.revision(), 0);
                evicted = true;
                // What the disk is asked for again may have changed.
                let l = &mut cur.layers;
                let hidden = l.by_path.contains_key(&*path_a) || l.notified.contains_key(&*path_a);
                if !hidden && l.disk.get(&*path_a).is_some_and(|s| s.len() > 1) {
                    cur.seen.retain(|i, _| ![A, A2].contains(i));
                    for o in &mut old {
                        o.seen.retain(|i, _| ![A, A2].contains(i));
                    }
                }
            }
            20 => {
                ch.note(|| "fork".into());
                cur.vfs = cur.vfs.fork();
                cur.lineage += 1;
                hide(&mut cur.layers, &disk, &path_a);
                renew(&mut cur);
            }
            _ => {
                ch.note(|| "an unrelated file changes".into());
                let p: ImmutPath = Path::new("/w/unrelated").into();
                cur.vfs.revise().map_shadow(&p, snap(Some(V[0]), &p)).unwrap();
                cur.seen.clear();
            }
        }
        if cur.vfs.revision() < before && op != 20 {
            return Err(Fail::new("revisions go back", format!("{before} to {}", cur.vfs.revision())));
        }
        // What an old view has already shown was read in a revision that a
        // change of the file must have ended.
        for o in &old {
            for &i in &changed {
                let now = cur.layers.allowed(ids, i).unwrap_or_default();
                let same = |s: &Seen| now.iter().any(|v| v.map(<[u8]>::to_vec) == s.0.clone().ok());
                if o.lineage == cur.lineage
                    && o.seen.get(&i).is_some_and(|s| !same(s))
                    && cur.vfs.is_clean_compile(o.vfs.revision().get(), &[ids.all[i].1])
                {
                    return Err(Fail::new(
                        "a changed file counts as unchanged",
                        format!("{} since revision {}", ids.all[i].0, o.vfs.revision()),
                    ));
                }
            }
        }
    }
    let order: &[usize] = if ch.choose("last reads", 2) == 0 { &[A, A2, B, U] } else { &[U, B, A2, A] };
    for &i in order {
        cur.read(ids, i, i % 2 == 0, "now, at last")?;
        for v in &mut old {
            v.read(ids, i, i % 2 == 1, "old, at last")?;
        }
    }
    for o in old.iter().filter(|o| o.lineage == cur.lineage) {
        for (i, seen) in &o.seen {
            let clean = cur.vfs.is_clean_compile(o.vfs.revision().get(), &[ids.all[*i].1]);
            if clean && cur.seen[i] != *seen {
                return Err(Fail::new(
                    "a changed file counts as unchanged",
                    format!(
                        "{}: {seen:?} in revision {} and {:?} in {} (evicted: {evicted})",
                        ids.all[*i].0,
                        o.vfs.revision(),
                        cur.seen[i],
                        cur.vfs.revision()
                    ),
                ));
            }
        }
    }
    ch.observe((&cur.seen.values().collect::<Vec<_>>(), cur.vfs.revision()));
    for o in &old {
        ch.observe(o.seen.values().collect::<Vec<_>>());
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Change {
    Notified,
    Shadow,
    ShadowId,
    Unshadow,
}

/// Readers of old views while the files change.
fn concurrent(ch: &mut Chooser, changes: usize, rich: bool) -> Result<(), Fail> {
    let readers: Vec<(usize, bool)> = match ch.choose("readers", if changes > 1 && !rich { 3 } else { 5 }) {
        0 => vec![(A, true), (A2, true)],
        1 => vec![(A, false)],
        2 => vec![(A, true)],
        3 => vec![(A2, false)],
        _ => vec![(A, true), (A, false)],
    };
    let prog: Vec<Change> = (0..changes)
        .map(|_| *ch.pick("change", &[Change::Notified, Change::Shadow, Change::ShadowId, Change::Unshadow]))
        .collect();
    let warm = ch.choose("read before", 2) == 1;
    let evicts = (changes == 1 || rich) && ch.choose("evicts", 2) == 1;
    let (p2, r2) = (prog.clone(), readers.clone());
    let res = rt::run(ch, rt::Opts::default(), move || -> Result<Vec<Seen>, Fail> {
        mcstdt::reset_statics();
        typst::syntax::reset_file_ids();
        let ids = Ids::new();
        let disk = Disk::default();
        let path: ImmutPath = Path::new("/w/a.typ").into();
        disk.set(&path, Some(V[0]));
        let mut vfs = Vfs::new(Arc::new(Roots), disk.clone());
        if warm {
            see(&vfs, ids.all[A2].1, false)?;
        }
        let mut want: Vec<Val> = vec![Some(V[0]); 2];
        let mut shadowed = false;
        let mut out = vec![];
        let mut joins: Vec<(Vec<Val>, usize, F, rt::Join<Result<Vec<u8>, String>>)> = vec![];
        let watch = |vfs: &F, want: &[Val], joins: &mut Vec<_>| {
            for &(i, text) in &r2 {
                let (v, id) = (vfs.snapshot(), ids.all[i].1);
                let v2 = vfs.snapshot();
                let h = rt::spawn(format!("reads {}", ids.all[i].0), move || {
                    if text {
                        return v.source(id).map(|s| s.text().as_bytes().to_vec()).map_err(|e| format!("{e:?}"));
                    }
                    v.read(id).map(|b| b.to_vec()).map_err(|e| format!("{e:?}"))
                });
                joins.push((want.to_vec(), i, v2, h));
            }
        };
        for (n, c) in p2.iter().enumerate() {
            watch(&vfs, &want, &mut joins);
            let v = Some(V[n + 1]);
            match c {
                Change::Notified => {
                    disk.set(&path, v);
                    let cs = FileChangeSet::new_inserts(vec![(path.clone(), snap(v, &path))]);
                    vfs.revise().notify_fs_changes(cs);
                    if !shadowed {
                        want[0] = v;
                    }
                    // An id shadow hides it.
                    if !shadowed && !p2[..n].iter().any(|c| matches!(c, Change::ShadowId)) {
                        want[1] = v;
                    }
                }
                Change::Shadow => {
                    vfs.revise().map_shadow(&path, snap(v, &path)).unwrap();
                    shadowed = true;
                    want[0] = v;
                    if !p2[..n].iter().any(|c| matches!(c, Change::ShadowId)) {
                        want[1] = v;
                    }
                }
                Change::ShadowId => {
                    vfs.revise().map_shadow_by_id(ids.all[A2].1, snap(v, &path)).unwrap();
                    want[1] = v;
                }
                Change::Unshadow => {
                    vfs.revise().unmap_shadow(&path).unwrap();
                    shadowed = false;
                    want[0] = disk.get(&path);
                    if !p2[..n].iter().any(|c| matches!(c, Change::ShadowId)) {
                        want[1] = disk.get(&path);
                    }
                }
            }
            if evicts {
                vfs.clone_source_cache().evict(vfs.revision(), 0);
            }
        }
        let last = vfs.snapshot();
        for i in [A, A2] {
            let got = see(&last, ids.all[i].1, false)?;
            if got.0 != bytes(want[i], &path).map(|b| b.to_vec()).map_err(|e| format!("{e:?}")) {
                return Err(Fail::new(
                    "not what the file holds at last",
                    format!("{}: {got:?} instead of {:?}", ids.all[i].0, want[i]),
                ));
            }
            out.push(got);
        }
        for (want, i, view, h) in joins {
            let first = h.join().map_err(|_| Fail::new("a reader panics", String::new()))?;
            let again = see(&view, ids.all[i].1, true)?;
            if first != again.0 {
                return Err(Fail::new("a view changes", format!("{first:?}, then {again:?}")));
            }
            // A file nobody notified shows what the disk held.
            let silent = want[i] == Some(V[0]);
            if !silent && first != bytes(want[i], &path).map(|b| b.to_vec()).map_err(|e| format!("{e:?}")) {
                return Err(Fail::new(
                    "not what the file holds",
                    format!("{}: {first:?} instead of {:?}", ids.all[i].0, want[i]),
                ));
            }
            out.push(again);
        }
        // A later change is seen as well.
        let v = Some(V[6]);
        disk.set(&path, v);
        vfs.revise().reset_shadow();
        let cs = FileChangeSet::new_inserts(vec![(path.clone(), snap(v, &path))]);
        vfs.revise().notify_fs_changes(cs);
        for i in [A, A2] {
            let got = see(&vfs, ids.all[i].1, true)?;
            if got.0.as_deref() != Ok(V[6]) {
                return Err(Fail::new("a later change is not seen", format!("{}: {got:?}", ids.all[i].0)));
            }
        }
        Ok(out)
    });
    let about = format!("{readers:?} {prog:?} warm {warm} evicts {evicts}");
    match res.end {
        End::Done { .. } => {}
        e => return Err(Fail::new("does not end well", format!("{about}: {e:?} {:?}", res.panics))),
    }
    match res.value {
        Some(Ok(out)) => {
            ch.observe(&out);
            Ok(())
        }
        Some(Err(f)) => Err(Fail::new(&f.sig, format!("{about}: {}", f.msg))),
        None => Err(Fail::new("does not end well", format!("{about}: {:?}", res.panics))),
    }
}

pub fn views(ctx: &mut Ctx) {
    let len = ctx.by(4, 5);
    ctx.explore(
        "views-histories",
        "histories",
        "every sequence of shadows by path and by id, notifications, silent changes of the disk, revisions with several changes, dropped caches, evictions, forks and reads of three files and an alias, then reads in every view taken",
        0,
        |ch| history(ch, len, true),
    );
    let len = ctx.by(5, 6);
    ctx.explore(
        "views-long-histories",
        "histories",
        "longer sequences without dropped caches, evictions and forks",
        0,
        |ch| history(ch, len, false),
    );
    let rich = ctx.by(false, true);
    ctx.explore(
        "views-threads",
        "schedules",
        "threads that read in the views before, between and after changes while the changes are made",
        ctx.by(2, 3),
        |ch| concurrent(ch, 1, rich),
    );
    ctx.explore(
        "views-threads-two-changes",
        "schedules",
        "the same with two changes",
        ctx.by(1, 2),
        |ch| concurrent(ch, 2, rich),
    );
}
