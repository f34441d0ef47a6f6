//! F04: removing trees, linking and copying, creating directories.

use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};

use mccore::explore::{Chooser, Config, Fail};
use mccore::report::Ctx;
use mccore::rt;
use tinymist_std::fs::flock::Filesystem;
use tinymist_std::fs::paths;

use crate::sys::{Act, Kind, Rules};
use crate::world::{act, fresh, picture, put, Node, Picture};

fn outside(dir: &Path) {
    put(&dir.join("file"), b"outside file", 0o444);
    // Removing a read-only hard link may make the file itself writable.
    put(&dir.join("shared"), b"outside and inside", 0o644);
    std::fs::create_dir(dir.join("out")).unwrap();
    put(&dir.join("out/inner"), b"outside inner", 0o600);
    std::fs::create_dir(dir.join("out/sub")).unwrap();
    put(&dir.join("out/sub/deep"), b"outside deep", 0o400);
}

/// Makes an entry of one of [`KINDS`] kinds.
fn entry(ch: &mut Chooser, dir: &Path, p: &Path, kinds: usize) {
    match ch.choose("entry", kinds) {
        0 => put(p, b"x", 0o644),
        1 => put(p, b"x", 0o444),
        2 => symlink(dir.join("out"), p).unwrap(),
        3 => symlink(dir.join("file"), p).unwrap(),
        4 => symlink(dir.join("nowhere"), p).unwrap(),
        5 => {
            std::fs::create_dir(p).unwrap();
            put(&p.join("y"), b"y", 0o444);
            symlink(dir.join("out/sub"), p.join("l")).unwrap();
        }
        6 => std::fs::create_dir(p).unwrap(),
        7 => symlink("..", p).unwrap(),
        8 => std::fs::hard_link(dir.join("shared"), p).unwrap(),
        _ => {
            std::fs::create_dir_all(p.join("a/b")).unwrap();
            put(&p.join("a/b/z"), b"z", 0o600);
            symlink(dir.join("file"), p.join("a/b/l")).unwrap();
            std::fs::set_permissions(p.join("a"), std::os::unix::fs::PermissionsExt::from_mode(0o555)).unwrap();
        }
    }
}
const KINDS: usize = 10;

fn below(k: &str, at: &str) -> bool {
    k == at || k.strip_prefix(at).is_some_and(|r| r.starts_with('/'))
}

fn remove(ch: &mut Chooser, max: usize) -> Result<(), Fail> {
    let dir = fresh();
    outside(&dir);
    let named = dir.join("tree");
    let root = ch.choose("root", 6);
    match root {
        0 => {
            std::fs::create_dir(&named).unwrap();
            let n = ch.choose("entries", max + 1);
            for i in 0..n {
                entry(ch, &dir, &named.join(format!("e{i}")), KINDS);
            }
        }
        1 => symlink(dir.join("out"), &named).unwrap(),
        2 => symlink(dir.join("nowhere"), &named).unwrap(),
        3 => symlink(dir.join("file"), &named).unwrap(),
        4 => {}
        _ => put(&named, b"a file", 0o644),
    }
    let before = picture(&dir);
    let p = named.clone();
    let did = act(ch, Rules { fail: 1, short: 0, kill: 1 }, None, "removing", move || paths::remove_dir_all(p).map_err(|e| format!("{e:#}")))?;
    let after = picture(&dir);
    let what = format!("{:?}, {:?}", before.iter().filter(|e| below(e.0, "tree")).collect::<Vec<_>>(), did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    ch.observe((&before, did.value.as_ref().map(|r| r.is_ok()), &after));
    for (k, v) in &before {
        if !below(k, "tree") && after.get(k) != Some(v) {
            return bad("removal reaches beyond the tree", format!("{k}: {:?}, before {v:?}", after.get(k)));
        }
    }
    if after.keys().any(|k| !before.contains_key(k)) {
        return bad("removal makes files", format!("{after:?}"));
    }
    match &did.value {
        Some(Ok(())) if after.keys().any(|k| below(k, "tree")) => bad("removal leaves something", format!("{after:?}")),
        Some(Ok(())) if root == 4 => bad("removing nothing succeeds", String::new()),
        Some(Err(e)) if root < 4 && did.events.iter().all(|e| e.act == Act::Run) => bad("removal fails by itself", e.clone()),
        _ => Ok(()),
    }
}

/// Two threads remove the same tree, or one removes what the other fills.
fn remove_together(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    outside(&dir);
    let named = dir.join("tree");
    std::fs::create_dir(&named).unwrap();
    let n = ch.choose("entries", 2) + 1;
    for i in 0..n {
        entry(ch, &dir, &named.join(format!("e{i}")), KINDS);
    }
    let other = ch.choose("other", 2);
    let before = picture(&dir);
    let p = named.clone();
    let did = act(ch, Rules::default(), None, "removing", move || {
        let (p1, p2) = (p.clone(), p.clone());
        let a = rt::spawn("first", move || paths::remove_dir_all(p1).is_ok());
        let b = rt::spawn("second", move || if other == 0 { paths::remove_dir_all(p2).is_ok() } else { std::fs::write(p2.join("new"), "n").is_ok() });
        (a.join().unwrap(), b.join().unwrap())
    })?;
    let after = picture(&dir);
    ch.observe((&before, did.value, &after));
    for (k, v) in &before {
        if !below(k, "tree") && after.get(k) != Some(v) {
            return Err(Fail::new("removal reaches beyond the tree", format!("{k}: {:?}, before {v:?}", after.get(k))));
        }
    }
    let left = after.keys().any(|k| below(k, "tree"));
    let (a, b) = did.value.unwrap();
    if left && (a || other == 0 && b) {
        return Err(Fail::new("removal leaves something", format!("{after:?}")));
    }
    Ok(())
}

fn content(p: &Path) -> Option<Picture> {
    let m = std::fs::metadata(p).ok()?;
    if m.is_dir() {
        Some(picture(&p.canonicalize().ok()?))
    } else {
        let content = std::fs::read(p).ok()?;
        Some([(String::new(), Node::File { mode: m.mode(), content })].into())
    }
}

fn link(ch: &mut Chooser, threads: usize, faults: bool) -> Result<(), Fail> {
    let dir = fresh();
    outside(&dir);
    std::fs::create_dir_all(dir.join("a/b")).unwrap();
    let src = dir.join("a/src");
    let s = ch.choose("source", 8);
    match s {
        6 => symlink("../out", &src).unwrap(),
        7 => symlink("../file", &src).unwrap(),
        0 => put(&src, b"source", 0o644),
        1 => put(&src, b"", 0o400),
        2 => {
            std::fs::create_dir(&src).unwrap();
            put(&src.join("x"), b"in dir", 0o644);
        }
        3 => symlink(dir.join("file"), &src).unwrap(),
        4 => symlink(dir.join("out"), &src).unwrap(),
        _ => {}
    }
    let d = ch.choose("destination", 11);
    let mut dst = dir.join(*ch.pick("place", &["a/dst", "a/b/dst"]));
    match d {
        0 => {}
        1 => put(&dst, b"former destination", 0o644),
        2 if s < 2 => std::fs::hard_link(&src, &dst).unwrap(),
        3 => symlink(&src, &dst).unwrap(),
        4 => symlink(dir.join("nowhere"), &dst).unwrap(),
        5 => symlink(dir.join("file"), &dst).unwrap(),
        6 => symlink(dir.join("out"), &dst).unwrap(),
        7 => dst = src.clone(),
        8 => std::fs::create_dir(&dst).unwrap(),
        9 => dst = dir.join("missing/dst"),
        10 => dst = dir.join("a/b/../src"),
        _ => {}
    }
    let itself = src.canonicalize().is_ok_and(|c| dst.canonicalize().is_ok_and(|d| d == c));
    let before = picture(&dir);
    let want = content(&src);
    let (s2, w2) = (src.clone(), want.clone());
    // Removing a read-only hard link may make the file itself writable.
    let linked = d == 2 && s == 1;
    let seen = move |p: Option<Picture>| if linked { p.map(strip_modes) } else { p };
    let monitor = move || {
        if seen(content(&s2)) != seen(w2.clone()) {
            return Err(format!("the source is {:?}", content(&s2)));
        }
        Ok(())
    };
    let mask = if faults { 1 } else { 0 };
    let (s2, d2) = (src.clone(), dst.clone());
    let did = act(ch, Rules { fail: mask, short: mask, kill: mask }, Some(Box::new(monitor)), "linking", move || {
        if threads == 1 {
            return vec![paths::link_or_copy(&s2, &d2).map_err(|e| format!("{e:#}"))];
        }
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (s, d) = (s2.clone(), d2.clone());
                rt::spawn(["t0", "t1", "t2"][t], move || paths::link_or_copy(s, d).map_err(|e| format!("{e:#}")))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })?;
    let after = picture(&dir);
    let what = format!("{threads} times, {:?}: {:?} to {:?}, {:?}", before, crate::sys::shown(&src), crate::sys::shown(&dst), did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if let Some(b) = &did.broken {
        return bad("linking modifies the source", b.clone());
    }
    ch.observe((s, d, did.value.as_ref().map(|v| v.iter().map(|r| r.is_ok()).collect::<Vec<_>>()), &after));
    let dst_key = dst.strip_prefix(&dir).unwrap().display().to_string();
    let now = seen(Some(after.clone())).unwrap();
    for (k, v) in seen(Some(before.clone())).iter().flatten() {
        if !below(k, &dst_key) && now.get(k) != Some(v) {
            return bad("linking disturbs other files", format!("{k}: {:?}, before {v:?}", after.get(k)));
        }
    }
    if after.keys().any(|k| !before.contains_key(k) && !below(k, &dst_key)) {
        return bad("linking makes other files", format!("{after:?}"));
    }
    let possible = s != 5 && d != 9 && (d != 8 || itself);
    let Some(results) = &did.value else { return Ok(()) };
    for r in results {
        match r {
            Ok(()) if s == 5 => return bad("linking nothing succeeds", format!("{after:?}")),
            Ok(()) if threads == 1 && content(&dst).map(strip_modes) != want.clone().map(strip_modes) => {
                return bad("the destination is not equal to the source", format!("{:?}, not {want:?}", content(&dst)))
            }
            Err(e) if possible && threads == 1 && did.gentle() => return bad("linking fails by itself", e.clone()),
            _ => {}
        }
    }
    if threads > 1 && possible && results.iter().any(Result::is_ok) && content(&dst).map(strip_modes) != want.clone().map(strip_modes) && results.iter().all(Result::is_ok) {
        return bad("the destination is not equal to the source", format!("{:?}, not {want:?}", content(&dst)));
    }
    Ok(())
}

/// A copy need not have the very same permissions.
fn strip_modes(p: Picture) -> Picture {
    p.into_iter()
        .map(|(k, v)| {
            let v = match v {
                Node::File { content, .. } => Node::File { mode: 0, content },
                v => v,
            };
            (k, v)
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Mk {
    All,
    Fs,
    Excluded,
}

fn make(how: Mk, p: &Path) -> Result<(), String> {
    match how {
        Mk::All => paths::create_dir_all(p),
        Mk::Fs => Filesystem::new(p.to_path_buf()).create_dir(),
        Mk::Excluded => paths::create_dir_all_excluded_from_backups_atomic(p),
    }
    .map_err(|e| format!("{e:#}"))
}

fn tagged(p: &Path) -> bool {
    std::fs::read_to_string(p.join("CACHEDIR.TAG")).is_ok_and(|t| t.starts_with("Signature: 8a477f597d28d172789f06886806bc55") && t.ends_with('\n'))
}

/// Directories are created once or more, by one or more.
fn create(ch: &mut Chooser, faults: bool) -> Result<(), Fail> {
    let dir = fresh();
    put(&dir.join("file"), b"f", 0o644);
    let place = ch.choose("place", 5);
    let p = match place {
        0 => dir.join("new"),
        1 => dir.join("one/two/new"),
        2 => {
            std::fs::create_dir(dir.join("old")).unwrap();
            put(&dir.join("old/x"), b"x", 0o644);
            dir.join("old")
        }
        3 => dir.join("file"),
        _ => dir.join("file/new"),
    };
    let hows = [Mk::All, Mk::Fs, Mk::Excluded];
    let n = if faults { 1 } else { ch.choose("threads", 2) + 2 };
    let mut who = vec![];
    for _ in 0..n {
        who.push(*ch.pick("how", &hows));
    }
    let before = picture(&dir);
    let only_excluded = who.iter().all(|h| *h == Mk::Excluded);
    let (p2, was) = (p.clone(), p.is_dir());
    let monitor = move || {
        // Whoever sees the new directory sees its tag.
        if only_excluded && !was && !faults && p2.is_dir() && !tagged(&p2) {
            Err("the directory is there without its tag".to_string())
        } else {
            Ok(())
        }
    };
    let mask = if faults { 1 } else { 0 };
    let (p2, w2) = (p.clone(), who.clone());
    let did = act(ch, Rules { fail: mask, short: 0, kill: mask }, Some(Box::new(monitor)), "creating directories", move || {
        if w2.len() == 1 {
            return vec![(make(w2[0], &p2), p2.is_dir())];
        }
        let hs: Vec<_> = w2
            .into_iter()
            .enumerate()
            .map(|(t, h)| {
                let p: PathBuf = p2.clone();
                rt::spawn(["t0", "t1", "t2"][t], move || {
                    let r = make(h, &p);
                    (r, p.is_dir())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })?;
    let after = picture(&dir);
    let what = format!("{who:?} for {:?}, {:?}", crate::sys::shown(&p), did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if let Some(b) = &did.broken {
        return bad("a directory appears before it is excluded", b.clone());
    }
    ch.observe((place, &who, &did.value, after.len()));
    if before.iter().any(|(k, v)| after.get(k) != Some(v)) {
        return bad("creating directories disturbs others", format!("{after:?}"));
    }
    let probed = did.events.iter().rposition(|e| e.kind == Kind::Stat);
    let Some(results) = &did.value else { return Ok(()) };
    let gentle = did.events.iter().all(|e| e.act == Act::Run);
    for (r, there) in results {
        match r {
            Ok(()) if !p.is_dir() => return bad("a directory that was created is not there", format!("{after:?}")),
            Ok(()) if !there && probed.is_none_or(|i| did.events[i].act == Act::Run) => {
                return bad("a directory that was created is not there", format!("{after:?}"))
            }
            Err(e) if place < 3 && gentle => return bad("creating a directory fails by itself", e.clone()),
            _ => {}
        }
    }
    if gentle {
        let key = p.strip_prefix(&dir).unwrap().display().to_string();
        let stray = after.keys().find(|k| !before.contains_key(*k) && **k != key && **k != format!("{key}/CACHEDIR.TAG") && !below(&key, k));
        if let Some(s) = stray {
            return bad("creating directories leaves something", s.clone());
        }
        if place < 2 && only_excluded && !tagged(&p) {
            return bad("a new directory is not excluded", format!("{after:?}"));
        }
        if (place == 2 || !who.contains(&Mk::Excluded)) && after.contains_key(&format!("{key}/CACHEDIR.TAG")) {
            return bad("a directory is excluded that should not be", format!("{after:?}"));
        }
    }
    Ok(())
}

/// Stripping a prefix sees through links.
fn strip(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    std::fs::create_dir_all(dir.join("a/b/c")).unwrap();
    std::fs::create_dir_all(dir.join("z")).unwrap();
    put(&dir.join("a/b/f"), b"f", 0o644);
    symlink(dir.join("a/b"), dir.join("z/lb")).unwrap();
    symlink("a", dir.join("la")).unwrap();
    symlink(dir.join("a/b/f"), dir.join("z/lf")).unwrap();
    let names = ["", "a", "a/b", "a/b/c", "a/b/f", "la", "la/b", "la/b/f", "z/lb", "z/lb/c", "z/lf", "z", "a/./b", "a/b/../b/c", "z/../a"];
    let (x, y) = (*ch.pick("path", &names), *ch.pick("base", &names));
    let (p, b) = (dir.join(x), dir.join(y));
    let got = paths::strip_prefix_canonical(&p, &b);
    let (cp, cb) = (p.canonicalize().unwrap(), b.canonicalize().unwrap());
    ch.observe((x, y, got.as_ref().ok()));
    match &got {
        Ok(r) if cb.join(r) == cp && r.is_relative() => Ok(()),
        Err(_) if !cp.starts_with(&cb) => Ok(()),
        r => Err(Fail::new("a stripped path leads elsewhere", format!("{x:?} without {y:?}: {r:?}"))),
    }
}

pub fn trees(ctx: &mut Ctx) {
    let cfg = |bound| Config { bound, ..Config::default() };
    let (max, bound) = (ctx.by(2, 3), ctx.by(1, 1));
    ctx.explore_with(
        "removal",
        "fault schedules",
        &format!("trees of up to {max} entries of {KINDS} kinds, links, files and nothing; every placement of up to {bound} failures or kills"),
        cfg(bound),
        |ch| remove(ch, max),
    );
    if ctx.thorough() {
        ctx.explore_with("removal with more faults", "fault schedules", "trees of up to two entries, up to two failures or kills", cfg(2), |ch| remove(ch, 2));
    }
    let bound = ctx.by(1, 3);
    ctx.explore_with(
        "removal together",
        "schedules",
        &format!("two threads remove one tree of one or two entries, or one fills it; up to {bound} preemptions"),
        cfg(bound),
        remove_together,
    );
    let bound = ctx.by(2, 3);
    ctx.explore_with(
        "links and copies",
        "fault schedules",
        &format!("six kinds of sources and eleven of destinations in two places, up to {bound} failures, short transfers or kills; the source is read after every call"),
        cfg(bound),
        |ch| link(ch, 1, true),
    );
    let bound = ctx.by(1, 3);
    ctx.explore_with("linkers together", "schedules", &format!("two threads link the same source to the same destination, up to {bound} preemptions"), cfg(bound), |ch| link(ch, 2, false));
    let bound = ctx.by(2, 3);
    ctx.explore_with("directories with faults", "fault schedules", &format!("one thread creates a directory in five places in three ways, up to {bound} failures or kills"), cfg(bound), |ch| create(ch, true));
    let bound = ctx.by(1, 2);
    ctx.explore_with("directories together", "schedules", &format!("two or three threads create the same directory in all combinations of ways, up to {bound} preemptions"), cfg(bound), |ch| create(ch, false));
    ctx.explore("prefixes", "inputs", "every pair of fifteen paths with and without links", 0, strip);
}
