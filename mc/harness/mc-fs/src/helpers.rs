//! F02: the helpers that move bytes, under faults.

use std::io::Read;
use std::os::unix::fs::MetadataExt;
use std::path::PathBuf;

use mccore::explore::{Chooser, Config, Fail};
use mccore::report::Ctx;
use mccore::rt;
use tinymist_std::fs::paths;

use crate::sys::{Kind, Rules};
use crate::world::{act, brief, fresh, picture, put, Node, Picture};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Write,
    WriteIfChanged,
    Append,
    Copy,
    ReadBytes,
    Read,
    Create,
    Open,
}
const OPS: [Op; 8] = [Op::Write, Op::WriteIfChanged, Op::Append, Op::Copy, Op::ReadBytes, Op::Read, Op::Create, Op::Open];

fn contents() -> Vec<Vec<u8>> {
    vec![
        b"".to_vec(),
        b"a".to_vec(),
        b"abcdef".to_vec(),
        b"abcXef".to_vec(),
        b"abcdefgh\n".to_vec(),
        "汉字é".as_bytes().to_vec(),
        b"a\xff\xfe".to_vec(),
        (0..20_000u32).flat_map(|i| [(i % 251) as u8, (i / 251) as u8]).collect(),
        (0..20_000u32).flat_map(|i| [(i % 251) as u8, (i / 251) as u8]).chain([7]).collect(),
        "\u{feff}marked\r\n\r\n \0".as_bytes().to_vec(),
    ]
}

const OLD_TIME: libc::timespec = libc::timespec { tv_sec: 1_000_000_000, tv_nsec: 5 };

fn age(p: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let t = [OLD_TIME, OLD_TIME];
    assert_eq!(unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), t.as_ptr(), 0) }, 0);
}

fn stamp(p: &std::path::Path) -> Option<(u64, i64, i64)> {
    std::fs::symlink_metadata(p).ok().map(|m| (m.ino(), m.mtime(), m.mtime_nsec()))
}

fn file(pic: &Picture, name: &str) -> Option<Vec<u8>> {
    match pic.get(name) {
        Some(Node::File { content, .. }) => Some(content.clone()),
        _ => None,
    }
}

fn mode(pic: &Picture, name: &str) -> Option<u32> {
    match pic.get(name) {
        Some(Node::File { mode, .. }) => Some(*mode),
        _ => None,
    }
}

/// One operation on one file.
fn single(ch: &mut Chooser) -> Result<(), Fail> {
    let all = contents();
    let dir = fresh();
    let path = dir.join("f");
    let op = *ch.pick("operation", &OPS);
    let old = match ch.choose("before", all.len() + 1) {
        0 => None,
        k => Some(all[k - 1].clone()),
    };
    let new = match op {
        Op::Write | Op::WriteIfChanged | Op::Append => ch.pick("content", &all).clone(),
        Op::Copy => match ch.choose("source", 4) {
            0 => all[2].clone(),
            1 => all[8].clone(),
            2 => all[0].clone(),
            _ => all[6].clone(),
        },
        _ => vec![],
    };
    if let Some(o) = &old {
        put(&path, o, 0o640);
    }
    let src = dir.join("src");
    put(&src, &new, 0o751);
    put(&dir.join("f2"), b"neighbour", 0o600);
    for f in ["f", "src", "f2"] {
        if dir.join(f).exists() {
            age(&dir.join(f));
        }
    }
    let before = picture(&dir);
    let (first, stamps) = (stamp(&path), [stamp(&src), stamp(&dir.join("f2"))]);
    let monitor: Option<Box<dyn FnMut() -> Result<(), String>>> = if op == Op::Append {
        // What was there stays there at every moment.
        let (p, o, n) = (path.clone(), old.clone(), new.clone());
        Some(Box::new(move || match std::fs::read(&p) {
            Ok(b) => {
                let o = o.clone().unwrap_or_default();
                if b.len() >= o.len() && b[..o.len()] == o && n.starts_with(&b[o.len()..]) {
                    Ok(())
                } else {
                    Err(format!("the file holds {}", brief(&b)))
                }
            }
            Err(_) if o.is_none() => Ok(()),
            Err(e) => Err(e.to_string()),
        }))
    } else {
        None
    };
    let kill = u64::from(op == Op::Append);
    let (p, n, s) = (path.clone(), new.clone(), src.clone());
    let did = act(ch, Rules { fail: 1, short: 1, kill }, monitor, "a file helper", move || -> Result<Vec<u8>, String> {
        let e = |e: anyhow::Error| format!("{e:#}");
        match op {
            Op::Write => paths::write(&p, &n).map(|_| vec![]).map_err(e),
            Op::WriteIfChanged => paths::write_if_changed(&p, &n).map(|_| vec![]).map_err(e),
            Op::Append => paths::append(&p, &n).map(|_| vec![]).map_err(e),
            Op::Copy => paths::copy(&s, &p).map(|k| k.to_le_bytes().to_vec()).map_err(e),
            Op::ReadBytes => paths::read_bytes(&p).map_err(e),
            Op::Read => paths::read(&p).map(String::into_bytes).map_err(e),
            Op::Create => paths::create(&p).map(|_| vec![]).map_err(e),
            Op::Open => paths::open(&p).map_err(e).and_then(|mut f| {
                let mut b = vec![];
                f.read_to_end(&mut b).map_err(|e| e.to_string())?;
                Ok(b)
            }),
        }
    })?;
    let what = format!("{op:?} of {} over {}, {:?}", brief(&new), old.as_ref().map_or("nothing".into(), |o| brief(o)), did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(format!("{op:?}: {sig}"), format!("{what}: {m}")));
    if let Some(b) = did.broken {
        return bad("former content is disturbed", b);
    }
    let after = picture(&dir);
    let now = file(&after, "f");
    ch.observe((op, &old, &new, &did.value, &now, did.events.iter().map(|e| (e.kind, e.act)).collect::<Vec<_>>()));
    if [stamp(&src), stamp(&dir.join("f2"))] != stamps || after.get("src") != before.get("src") || after.get("f2") != before.get("f2") {
        return bad("other files change", format!("{after:?}"));
    }
    if after.len() > before.len() + usize::from(old.is_none()) {
        return bad("other files appear", format!("{after:?}"));
    }
    let reading = matches!(op, Op::Read | Op::ReadBytes | Op::Open);
    let possible = !(reading && old.is_none()) && !(op == Op::Read && old.as_ref().is_some_and(|o| std::str::from_utf8(o).is_err()));
    match &did.value {
        None => {}
        Some(Err(e)) => {
            if possible && did.gentle() {
                return bad("fails by itself", e.clone());
            }
            if reading && after != before {
                return bad("reading changes the file", format!("{after:?}"));
            }
        }
        Some(Ok(got)) => {
            if !possible {
                return bad("succeeds where it cannot", brief(got));
            }
            let want = match op {
                Op::Write | Op::WriteIfChanged | Op::Copy => Some(new.clone()),
                Op::Append => Some([old.clone().unwrap_or_default(), new.clone()].concat()),
                Op::Create => Some(vec![]),
                _ => old.clone(),
            };
            if now != want {
                return bad("other bytes than given", format!("{:?}, not {:?}", now.map(|b| brief(&b)), want.map(|b| brief(&b))));
            }
            if reading && Some(got) != old.as_ref() {
                return bad("other bytes than there are", brief(got));
            }
            match op {
                Op::Copy if got[..] != (new.len() as u64).to_le_bytes() => return bad("another count", format!("{got:?}")),
                Op::Copy if mode(&after, "f") != Some(0o751) => return bad("other permissions", format!("{:?}", mode(&after, "f"))),
                Op::Write | Op::WriteIfChanged | Op::Append | Op::Create if old.is_some() && mode(&after, "f") != Some(0o640) => {
                    return bad("the permissions change", format!("{:?}", mode(&after, "f")))
                }
                _ => {}
            }
        }
    }
    // Equal content is not touched, nor is what is only read.
    if reading || op == Op::WriteIfChanged && old.as_ref() == Some(&new) {
        if stamp(&path) != first || after.get("f") != before.get("f") {
            return bad("an unchanged file is touched", format!("{:?}, before {first:?}", stamp(&path)));
        }
    }
    Ok(())
}

/// Several threads append to one file.
fn appenders(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    let path = dir.join("log");
    let old: Option<&[u8]> = *ch.pick("before", &[None, Some(&b"head\n"[..])]);
    if let Some(o) = old {
        put(&path, o, 0o644);
    }
    let n = ch.choose("threads", 2) + 2;
    let each = ch.choose("appends", 2) + 1;
    let (p, o) = (path.clone(), old.unwrap_or_default().to_vec());
    let monitor = move || match std::fs::read(&p) {
        Ok(b) if !b.starts_with(&o) => Err(format!("the file holds {}", brief(&b))),
        _ => Ok(()),
    };
    let kill = ch.choose("killed", 2) as u64 * 2;
    let p = path.clone();
    let did = act(ch, Rules { fail: kill, short: 0, kill }, Some(Box::new(monitor)), "appending", move || {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let p: PathBuf = p.clone();
                rt::spawn(["a0", "a1", "a2"][t], move || {
                    (0..each).filter(|i| paths::append(&p, format!("t{t}.{i};").as_bytes()).is_ok()).count()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok()).collect::<Vec<_>>()
    })?;
    let what = format!("{n} threads append {each} times, {:?}", did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if let Some(b) = did.broken {
        return bad("Append: former content is disturbed", b);
    }
    let text = String::from_utf8(std::fs::read(&path).unwrap_or_default()).unwrap();
    ch.observe((n, each, &text));
    let Some(rest) = text.strip_prefix(std::str::from_utf8(old.unwrap_or_default()).unwrap()) else {
        return bad("Append: former content is disturbed", text);
    };
    // Whole records, in the order of each thread; what is left over is the
    // beginning of the one that a killed thread was writing.
    let counts = did.value.unwrap();
    let mut left = rest.to_string();
    for (t, c) in counts.iter().enumerate() {
        let mut at = vec![];
        for i in 0..each {
            let record = format!("t{t}.{i};");
            if let Some(x) = rest.find(&record) {
                at.push(x);
                left = left.replacen(&record, "", 1);
            }
        }
        let whole = c.is_none() || *c == Some(at.len());
        if !at.is_sorted() || !whole || (kill == 0 || t > 0) && at.len() != each {
            return bad("Append: concurrent appends are lost", format!("thread {t} appended {c:?}: {text:?}"));
        }
    }
    if !left.is_empty() && !(counts[0].is_none() && (0..each).any(|i| format!("t0.{i};").starts_with(&left))) {
        return bad("Append: concurrent appends are mixed", text);
    }
    Ok(())
}

/// Temporary directories are there during the call, and gone after it.
fn temporary(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    put(&dir.join("keep"), b"keep", 0o644);
    let base = match ch.choose("base", 3) {
        0 => dir.clone(),
        1 => dir.join("new/deep"),
        _ => dir.join("keep"),
    };
    let way = ch.choose("way", 3);
    let n = ch.choose("threads", 2) + 1;
    let before = picture(&dir);
    let b = base.clone();
    let did = act(ch, Rules { fail: 2, short: 0, kill: 0 }, None, "a temporary directory", move || {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let b = b.clone();
                rt::spawn(["t0", "t1"][t], move || {
                    let r = std::panic::catch_unwind(move || {
                        paths::temp_dir_in(&b, |p| {
                            let empty = p.is_dir() && p.starts_with(&b) && p != b && std::fs::read_dir(p).is_ok_and(|mut r| r.next().is_none());
                            let _ = std::fs::create_dir(p.join("sub"));
                            let _ = std::fs::write(p.join("sub/file"), "x");
                            match way {
                                0 => Ok((empty, p.to_path_buf())),
                                1 => anyhow::bail!("own error {empty}"),
                                _ => std::panic::resume_unwind(Box::new("own panic")),
                            }
                        })
                        .map_err(|e| format!("{e:#}"))
                    });
                    r.map_err(|e| rt::panic_text(&*e))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    })?;
    let what = format!("{n} threads, way {way}, {:?}", did.disturbances());
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    let gentle = did.gentle();
    let after = picture(&dir);
    let results = did.value.unwrap();
    ch.observe((way, n, results.iter().map(|r| r.as_ref().map(|r| r.is_ok()).map_err(|e| e.clone())).collect::<Vec<_>>(), after.len()));
    for (t, r) in results.iter().enumerate() {
        let fine = match (way, r) {
            _ if base.ends_with("keep") => matches!(r, Ok(Err(_))),
            (0, Ok(Ok((empty, p)))) => (*empty || !gentle) && !p.exists() || t == 0 && !gentle,
            (1, Ok(Err(e))) => e == "own error true" || !gentle,
            (2, Err(e)) => e == "own panic",
            (_, Ok(Err(_))) => t == 0 && !gentle,
            _ => false,
        };
        if !fine {
            return bad("a temporary directory call returns something else", format!("thread {t}: {r:?}"));
        }
    }
    let unremoved = did.events.iter().any(|e| matches!(e.kind, Kind::Unlink | Kind::List | Kind::Open | Kind::Stat | Kind::FStat) && e.act != crate::sys::Act::Run);
    let base_rel = base.strip_prefix(&dir).unwrap().display().to_string();
    let extra: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k) && **k != base_rel && **k != "new").collect();
    if before.iter().any(|(k, v)| after.get(k) != Some(v)) || !extra.is_empty() && !unremoved {
        return bad("a temporary directory stays or disturbs others", format!("{after:?}"));
    }
    Ok(())
}

pub fn helpers(ctx: &mut Ctx) {
    let bound = ctx.by(2, 3);
    let cfg = |bound| Config { bound, ..Config::default() };
    ctx.explore_with(
        "single operations",
        "fault schedules",
        &format!("{} operations over absent files and {} contents of relations to the new one; every placement of up to {bound} failures, interruptions and short transfers among the system calls (and kills, for appending)", OPS.len(), contents().len()),
        cfg(bound),
        single,
    );
    let bound = ctx.by(2, 3);
    ctx.explore_with("appenders", "schedules", &format!("two or three threads that append once or twice, every schedule of their system calls with up to {bound} preemptions, failures and kills"), cfg(bound), appenders);
    let bound = ctx.by(1, 2);
    ctx.explore_with("temporary directories", "fault schedules", &format!("one or two threads with temporary directories that succeed, fail or panic; up to {bound} failures and preemptions"), cfg(bound), temporary);
}
