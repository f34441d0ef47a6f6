//! F03: lock files, under every schedule of those who contend for them.

use std::io::{Read, Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use mccore::explore::{Chooser, Config, Fail};
use mccore::report::Ctx;
use mccore::rt;
use tinymist_std::fs::flock::{FileLock, Filesystem};

use crate::sys::{self, Act, Rules};
use crate::world::{act, fresh, picture, put, Node};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
    Rw,
    TryRw,
    Ro,
    RoCreate,
    TryRo,
}
use Way::*;

impl Way {
    fn exclusive(self) -> bool {
        matches!(self, Rw | TryRw)
    }
    fn creates(self) -> bool {
        self != Ro
    }
    fn waits(self) -> bool {
        matches!(self, Rw | Ro | RoCreate)
    }
}

fn acquire(fs: &Filesystem, file: &str, way: Way) -> anyhow::Result<Option<FileLock>> {
    match way {
        Rw => fs.open_rw_exclusive_create(file, "the model").map(Some),
        TryRw => fs.try_open_rw_exclusive_create(file),
        Ro => fs.open_ro_shared(file, "the model").map(Some),
        RoCreate => fs.open_ro_shared_create(file, "the model").map(Some),
        TryRo => fs.try_open_ro_shared_create(file),
    }
}

/// Who holds the lock, or may.
#[derive(Default)]
struct Board {
    /// Thread, and whether exclusively.
    holders: Vec<(usize, bool)>,
    /// Threads between their first step towards the lock and its release.
    about: Vec<(usize, bool)>,
    /// Threads that somebody else was about while they tried.
    excused: Vec<usize>,
    wrong: Option<String>,
    dead: u64,
}

impl Board {
    fn bury(&mut self) {
        self.dead |= sys::peek_dead();
        let d = self.dead;
        self.holders.retain(|h| d >> h.0 & 1 == 0);
        // The end of a killed thread may come at any time up to now.
    }
    fn begin(&mut self, t: usize, ex: bool) {
        self.bury();
        self.excused.retain(|x| *x != t);
        for (o, oex) in self.about.clone() {
            if ex || oex {
                self.excused.push(t);
                self.excused.push(o);
            }
        }
        self.about.push((t, ex));
    }
    fn got(&mut self, t: usize, ex: bool) {
        self.bury();
        if let Some(h) = self.holders.iter().find(|h| ex || h.1) {
            self.wrong.get_or_insert(format!("thread {t} gets the lock {} while thread {} holds it {}", word(ex), h.0, word(h.1)));
        }
        self.holders.push((t, ex));
    }
    /// The lock is still held up to here.
    fn before_release(&mut self, t: usize) {
        self.holders.retain(|h| h.0 != t);
    }
    fn end(&mut self, t: usize) {
        self.about.retain(|a| a.0 != t);
    }
}

fn word(ex: bool) -> &'static str {
    if ex {
        "exclusively"
    } else {
        "shared"
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Got {
    Lock { read: String, wrote: Option<bool> },
    Contended,
    Error(String),
}

fn read_all(l: &mut FileLock) -> std::io::Result<String> {
    let mut s = String::new();
    l.seek(SeekFrom::Start(0))?;
    l.read_to_string(&mut s)?;
    Ok(s)
}

fn worker(fs: Filesystem, file: &str, way: Way, board: Arc<Mutex<Board>>, t: usize, target: PathBuf) -> Got {
    board.lock().unwrap().begin(t, way.exclusive());
    let r = acquire(&fs, file, way);
    let out = match r {
        Err(e) => Got::Error(format!("{e:#}")),
        Ok(None) => Got::Contended,
        Ok(Some(mut l)) => {
            board.lock().unwrap().got(t, way.exclusive());
            rt::note(|| format!("{way:?} held"));
            if l.path() != target || Some(l.parent()) != target.parent() {
                board.lock().unwrap().wrong.get_or_insert(format!("the lock says its path is {:?}", l.path()));
            }
            let read = read_all(&mut l).unwrap_or_else(|e| format!("error {e}"));
            let mut wrote = None;
            if way.exclusive() && read.starts_with("error") {
                wrote = Some(false);
            } else if way.exclusive() {
                // Everybody who holds it exclusively adds one.
                let next = format!("{read}{t}");
                wrote = Some(l.seek(SeekFrom::Start(0)).is_ok() && l.write_all(next.as_bytes()).is_ok() && l.flush().is_ok());
                if wrote == Some(true) && read_all(&mut l).is_ok_and(|s| s != next) {
                    board.lock().unwrap().wrong.get_or_insert("what was written through the lock is not there".into());
                }
            } else if way == Ro {
                wrote = Some(l.write_all(b"!").is_ok());
            }
            rt::point("holding");
            if !way.exclusive() && !read.starts_with("error") && read_all(&mut l).is_ok_and(|s| s != read) {
                board.lock().unwrap().wrong.get_or_insert(format!("the content changes under a shared lock, from {read:?}"));
            }
            board.lock().unwrap().before_release(t);
            drop(l);
            Got::Lock { read, wrote }
        }
    };
    board.lock().unwrap().end(t);
    out
}

fn contend(ch: &mut Chooser, programs: &[Vec<Vec<Way>>], faults: bool) -> Result<(), Fail> {
    let dir = fresh();
    let file = *ch.pick("file", &["lock", "new/deep/lock"]);
    let before: Option<&[u8]> = if file == "lock" { *ch.pick("before", &[Some(&b"s"[..]), None]) } else { None };
    let path = dir.join(file);
    if let Some(b) = before {
        put(&path, b, 0o644);
    }
    let prog = ch.pick("program", programs).clone();
    let mask = if faults { 2 } else { 0 };
    let board: Arc<Mutex<Board>> = Default::default();
    let (b2, p2, d2, prog2) = (board.clone(), path.clone(), dir.clone(), prog.clone());
    let did = act(ch, Rules { fail: mask, short: 0, kill: mask }, None, "locking", move || {
        let hs: Vec<_> = prog2
            .into_iter()
            .enumerate()
            .map(|(n, ways)| {
                let (fs, b, p) = (Filesystem::new(d2.clone()), b2.clone(), p2.clone());
                rt::spawn(["l0", "l1", "l2", "l3"][n], move || {
                    let t = rt::tid();
                    ways.into_iter().map(|w| worker(fs.clone(), file, w, b.clone(), t, p.clone())).collect::<Vec<_>>()
                })
            })
            .collect();
        let got: Vec<_> = hs.into_iter().map(|h| h.join().ok()).collect();
        // Nobody is left: the lock is free.
        let free = Filesystem::new(d2).try_open_rw_exclusive_create(file).map(|l| l.is_some()).map_err(|e| format!("{e:#}"));
        (got, free)
    })?;
    let what = format!("{prog:?} for {file}, {:?}", did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    let board = board.lock().unwrap();
    if let Some(w) = &board.wrong {
        return bad(if w.contains("gets the lock") { "a lock does not exclude" } else { "a lock is not what it says" }, w.clone());
    }
    let (got, free) = did.value.unwrap();
    ch.observe((&prog, file, &got));
    if free != Ok(true) {
        return bad("a released lock is not free", format!("{free:?}, {got:?}"));
    }
    let disturbed = sys::disturbed(&did.events);
    let (mut added, mut lost) = (vec![], false);
    for (n, r) in got.iter().enumerate() {
        let Some(r) = r else {
            if !(disturbed && n == 0) {
                return bad("a thread dies", format!("{n}: {got:?}"));
            }
            lost = true;
            continue;
        };
        for (k, g) in r.iter().enumerate() {
            let way = prog[n][k];
            let hurt = disturbed && n == 0;
            match g {
                Got::Error(e) if !hurt && !(way == Ro && before.is_none()) => return bad("an attempt fails by itself", format!("{way:?} of thread {n}: {e}")),
                Got::Error(_) => {}
                Got::Contended if way.waits() => return bad("a blocking attempt does not wait", format!("{way:?} of thread {n}")),
                Got::Contended if !board.excused.contains(&(n + 1)) => return bad("contention without contenders", format!("{way:?} of thread {n}")),
                Got::Contended => {}
                Got::Lock { wrote, .. } if way.exclusive() => {
                    if *wrote == Some(true) {
                        added.push(n + 1)
                    } else if !hurt {
                        return bad("a read-write lock cannot be written", format!("{way:?} of thread {n}: {wrote:?}"));
                    } else {
                        lost = true;
                    }
                }
                Got::Lock { wrote: Some(true), .. } => return bad("a read-only lock can be written", format!("{way:?} of thread {n}")),
                Got::Lock { read, .. } if !hurt && read.starts_with("error") => return bad("a lock cannot be read", format!("{way:?} of thread {n}: {read}")),
                Got::Lock { .. } => {}
            }
            let _ = way.creates();
        }
    }
    // Everybody's writing is there, in the order of the locks.
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let Some(rest) = text.strip_prefix(std::str::from_utf8(before.unwrap_or_default()).unwrap()) else {
        return bad("locking disturbs the content", text);
    };
    let mut seen: Vec<usize> = rest.bytes().map(|b| b.wrapping_sub(b'0') as usize).collect();
    seen.sort();
    added.sort();
    let equal = seen == added;
    if !equal && !(lost && seen.iter().filter(|s| **s != 1).eq(added.iter().filter(|s| **s != 1))) {
        return bad("what was written under an exclusive lock is lost", format!("{text:?}, written by {added:?}"));
    }
    Ok(())
}

/// What others meet while those who waited for a lock hold it.
fn after_waiting(ch: &mut Chooser, waiters: &[Vec<Way>]) -> Result<(), Fail> {
    let dir = fresh();
    put(&dir.join("lock"), b"s", 0o644);
    let first = *ch.pick("first", &[Rw, TryRw, Ro, RoCreate, TryRo]);
    let waiters = ch.pick("waiters", waiters).clone();
    let (d2, w2) = (dir.clone(), waiters.clone());
    let did = act(ch, Rules { fail: 0, short: 0, kill: 0 }, None, "locking", move || -> Result<(), String> {
        let get = |w: Way| acquire(&Filesystem::new(d2.clone()), "lock", w).map_err(|e| format!("{w:?} fails: {e:#}"));
        let mut held = get(first)?;
        if held.is_none() {
            return Err(format!("{first:?} finds a free lock held"));
        }
        // Who waited and holds, and who may let go.
        let state: Arc<Mutex<(Vec<usize>, Vec<usize>)>> = Default::default();
        let hs: Vec<_> = w2
            .iter()
            .enumerate()
            .map(|(n, &w)| {
                let (d, st) = (d2.clone(), state.clone());
                rt::spawn(["w0", "w1", "w2"][n], move || -> Result<(), String> {
                    let l = acquire(&Filesystem::new(d), "lock", w).map_err(|e| format!("{w:?} fails: {e:#}"))?;
                    let l = l.ok_or_else(|| format!("{w:?} does not wait"))?;
                    st.lock().unwrap().0.push(n);
                    let s2 = st.clone();
                    rt::block("told to let go", move || s2.lock().unwrap().1.contains(&n));
                    st.lock().unwrap().0.retain(|h| *h != n);
                    drop(l);
                    Ok(())
                })
            })
            .collect();
        let mut left: Vec<usize> = (0..w2.len()).collect();
        while !left.is_empty() {
            // Everybody who shares can hold it together; exclusive ones one after the other.
            let sharing: Vec<usize> = left.iter().copied().filter(|n| !w2[*n].exclusive()).collect();
            let together = sharing.len() == left.len();
            if held.is_some() && (first.exclusive() || !together) {
                if state.lock().unwrap().0.iter().any(|n| first.exclusive() || w2[*n].exclusive()) {
                    return Err("a waiter gets the lock before it is released".into());
                }
                held = None;
            }
            let (st, n) = (state.clone(), left.len());
            rt::block("a waiter holds", move || {
                let h = st.lock().unwrap().0.len();
                h >= if together { n } else { 1 }
            });
            let holding = state.lock().unwrap().0.clone();
            let exclusive = holding.iter().any(|n| w2[*n].exclusive());
            if exclusive && holding.len() > 1 {
                return Err(format!("{holding:?} hold it at once"));
            }
            if let Some(_l) = get(TryRw)? {
                return Err(format!("{holding:?} hold it, and yet another one gets it exclusively"));
            }
            if get(TryRo)?.is_some() == exclusive {
                return Err(format!("{holding:?} hold it, one of them exclusively: {exclusive}, and another one can share it: {}", !exclusive));
            }
            if !exclusive && get(Ro)?.is_none() {
                return Err("a blocking attempt does not wait".into());
            }
            held = None;
            state.lock().unwrap().1.extend(&holding);
            left.retain(|n| !holding.contains(n));
            let st = state.clone();
            rt::block("the holders let go", move || !st.lock().unwrap().0.iter().any(|n| holding.contains(n)));
        }
        for h in hs {
            h.join().map_err(|_| "a waiter dies".to_string())??;
        }
        match get(TryRw)? {
            Some(_) => Ok(()),
            None => Err("a released lock is not free".into()),
        }
    })?;
    ch.observe((first, &waiters, &did.value));
    match did.value {
        Some(Ok(())) => Ok(()),
        Some(Err(e)) => Err(Fail::new("a lock that was waited for", format!("{first:?}, then {waiters:?}: {e}"))),
        None => Err(Fail::new("a lock that was waited for", "the thread dies")),
    }
}

/// Clearing the siblings of a held lock.
fn siblings(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    put(&dir.join("outside"), b"outside", 0o444);
    std::fs::create_dir(dir.join("keep")).unwrap();
    put(&dir.join("keep/inner"), b"inner", 0o644);
    let at = dir.join("cache");
    std::fs::create_dir(&at).unwrap();
    put(&at.join("lock"), b"held", 0o600);
    let n = ch.choose("entries", 4);
    for i in 0..n {
        let p = at.join(format!("e{i}"));
        match ch.choose("entry", 7) {
            0 => put(&p, b"x", 0o644),
            1 => put(&p, b"x", 0o444),
            2 => {
                std::fs::create_dir(&p).unwrap();
                put(&p.join("lock"), b"deep", 0o644);
            }
            3 => std::os::unix::fs::symlink(dir.join("outside"), &p).unwrap(),
            4 => std::os::unix::fs::symlink(dir.join("keep"), &p).unwrap(),
            5 => std::os::unix::fs::symlink(at.join("lock"), &p).unwrap(),
            _ => std::os::unix::fs::symlink(dir.join("nowhere"), &p).unwrap(),
        }
    }
    let before = picture(&dir);
    let fs = Filesystem::new(at.clone());
    let did = act(ch, Rules { fail: 1, short: 0, kill: 1 }, None, "clearing", move || {
        let l = fs.open_rw_exclusive_create("lock", "the model").map_err(|e| format!("{e:#}"))?;
        l.remove_siblings().map_err(|e| format!("{e:#}"))
    })?;
    let after = picture(&dir);
    let what = format!("{n} entries, {:?}", did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    ch.observe((n, &did.value, &after));
    let inside = |k: &String| k.starts_with("cache/e");
    for (k, v) in &before {
        if !inside(k) && after.get(k) != Some(v) {
            return bad("clearing reaches beyond the siblings", format!("{k}: {:?}, before {v:?}", after.get(k)));
        }
    }
    if after.keys().any(|k| !before.contains_key(k)) {
        return bad("clearing makes files", format!("{after:?}"));
    }
    match did.value {
        Some(Ok(())) if after.keys().any(inside) => bad("siblings stay", format!("{after:?}")),
        Some(Err(e)) if did.events.iter().all(|e| e.act == Act::Run) => bad("clearing fails by itself", e),
        _ => Ok(()),
    }
}

/// A directory in place of the lock, paths, and what is not there.
fn odd(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    let way = *ch.pick("way", &[Rw, TryRw, Ro, RoCreate, TryRo]);
    let kind = ch.choose("kind", 5);
    match kind {
        0 => std::fs::create_dir(dir.join("l")).unwrap(),
        1 => put(&dir.join("l"), b"content", 0o444),
        2 => std::os::unix::fs::symlink(dir.join("real"), dir.join("l")).unwrap(),
        3 => put(&dir.join("dir"), b"a file", 0o644),
        _ => {}
    }
    let name = if kind == 3 { "dir/l" } else { "l" };
    let before = picture(&dir);
    let mut fs = Filesystem::new(dir.join("x"));
    fs.push("..");
    let fs = Filesystem::new(paths_up(&fs)).join(".");
    let r = acquire(&fs, name, way);
    let after = picture(&dir);
    ch.observe((way, kind, r.is_ok(), &after));
    let what = format!("{way:?} of kind {kind}");
    let want = match kind {
        // A directory may be locked by those who only read.
        0 => way == Ro && r.is_ok(),
        3 => false,
        1 => true,
        2 | 4 => way != Ro,
        _ => unreachable!(),
    };
    match &r {
        Ok(Some(_)) if want => {}
        Err(_) if !want => {}
        r => return Err(Fail::new("an odd lock file", format!("{what}: {r:?}"))),
    }
    for (k, v) in &before {
        if after.get(k) != Some(v) {
            return Err(Fail::new("locking disturbs the content", format!("{what}: {k} {:?}", after.get(k))));
        }
    }
    let new: Vec<_> = after.iter().filter(|e| !before.contains_key(e.0)).collect();
    let expected = match kind {
        2 if way != Ro => "real",
        4 if way != Ro => "l",
        _ => "",
    };
    if new.iter().any(|e| e.0 != expected || !matches!(e.1, Node::File { content, .. } if content.is_empty())) {
        return Err(Fail::new("locking makes other files", format!("{what}: {new:?}")));
    }
    Ok(())
}

fn paths_up(fs: &Filesystem) -> PathBuf {
    // `x/..` without going through `x`, which does not exist.
    tinymist_std::fs::paths::normalize_path(fs.as_path_unlocked())
}

pub fn locks(ctx: &mut Ctx) {
    let cfg = |bound| Config { bound, ..Config::default() };
    let mut pairs = vec![];
    let all = [Rw, TryRw, Ro, RoCreate, TryRo];
    for a in all {
        for b in all {
            pairs.push(vec![vec![a], vec![b]]);
        }
    }
    let bound = ctx.by(2, 4);
    ctx.explore_with(
        "pairs",
        "schedules",
        &format!("two threads of each of the {} pairs of ways to lock, over present and absent files and directories; every schedule of their system calls with up to {bound} preemptions", pairs.len()),
        cfg(bound),
        |ch| contend(ch, &pairs, false),
    );
    let bound = ctx.by(2, 3);
    ctx.explore_with(
        "pairs with faults",
        "fault schedules",
        &format!("the same pairs with failures and kills of the first thread, up to {bound} deviations"),
        cfg(bound),
        |ch| contend(ch, &pairs, true),
    );
    let three = vec![
        vec![vec![Rw], vec![Rw], vec![Rw]],
        vec![vec![Rw], vec![Ro], vec![RoCreate]],
        vec![vec![RoCreate], vec![TryRo], vec![TryRw]],
        vec![vec![Rw, Rw], vec![Rw, TryRw]],
        vec![vec![Rw, RoCreate], vec![RoCreate, Rw]],
        vec![vec![TryRw, Rw], vec![TryRo, Rw], vec![RoCreate]],
    ];
    let bound = ctx.by(1, 3);
    ctx.explore_with(
        "more contenders",
        "schedules",
        &format!("{} programs of up to three threads that lock up to twice, up to {bound} preemptions", three.len()),
        cfg(bound),
        |ch| contend(ch, &three, false),
    );
    let waiters = [vec![Ro], vec![RoCreate], vec![Rw], vec![Ro, RoCreate], vec![RoCreate, Rw], vec![Rw, Rw], vec![Ro, Ro, RoCreate]];
    let bound = ctx.by(1, 3);
    ctx.explore_with(
        "after waiting",
        "schedules",
        &format!("a holder of each kind and {} groups of up to three that wait for it, whose locks are then probed by every kind of attempt, up to {bound} preemptions", waiters.len()),
        cfg(bound),
        |ch| after_waiting(ch, &waiters),
    );
    let bound = ctx.by(1, 2);
    ctx.explore_with(
        "siblings",
        "fault schedules",
        &format!("directories of up to three entries of seven kinds beside a held lock, up to {bound} failures or kills"),
        cfg(bound),
        siblings,
    );
    ctx.explore("odd files", "inputs", "every way to lock directories, read-only files, links and what is not there", 0, odd);
}
