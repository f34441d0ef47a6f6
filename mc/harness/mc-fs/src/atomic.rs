//! F01: atomic writes, under every fault, kill and schedule within the bound.

use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

use mccore::explore::{Chooser, Config, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use tinymist_std::fs::paths::write_atomic;

use crate::sys::{self, Act, Kind, Rules};
use crate::world::{brief, fresh, picture, put, Node};

fn bytes(kind: usize, c: u8) -> Vec<u8> {
    match kind {
        0 => vec![c; 5],
        1 => vec![],
        2 => vec![c; 10_000],
        _ => [b"\xff\x00", &[c; 40][..]].concat(),
    }
}

fn look(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}

fn see(x: &Option<Vec<u8>>) -> String {
    x.as_ref().map_or("nothing".into(), |b| brief(b))
}

/// One writer whose calls fail, are cut short or are its last ones.
fn alone(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    let name = *ch.pick("name", &["out.pdf", "ü b", ".x"]);
    let path = dir.join(name);
    let old = match ch.choose("before", 7) {
        0 => None,
        1 => Some((bytes(0, b'o'), 0o644)),
        2 => Some((bytes(2, b'o'), 0o600)),
        3 => Some((bytes(0, b'o'), 0o755)),
        4 => Some((bytes(1, b'o'), 0o444)),
        5 => Some((bytes(3, b'o'), 0o666)),
        _ => Some((bytes(0, b'o'), 0o4751)),
    };
    if let Some((b, m)) = &old {
        put(&path, b, *m);
    }
    put(&dir.join("other"), b"other", 0o640);
    let new = bytes(ch.choose("content", 4), b'n');
    let before = picture(&dir);
    let old_bytes = old.as_ref().map(|o| o.0.clone());
    let (p2, allowed) = (path.clone(), [old_bytes.clone(), Some(new.clone())]);
    let mon = move || {
        let now = look(&p2);
        if allowed.contains(&now) {
            Ok(())
        } else {
            Err(format!("the file holds {}", see(&now)))
        }
    };
    sys::arm(Rules { fail: 1, short: 1, kill: 1 }, Some(Box::new(mon)));
    let (p2, n2) = (path.clone(), new.clone());
    let r = rt::run(ch, rt::Opts::default(), move || write_atomic(p2, n2).map_err(|e| format!("{e:#}")));
    let (events, broken) = sys::disarm();
    let what = format!("{name:?} from {} to {}, {:?}", see(&old_bytes), brief(&new), disturbances(&events));
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if let Some(b) = broken {
        return bad("a reader sees neither the old nor the new content", b);
    }
    let killed = sys::take_dead() != 0;
    let after = picture(&dir);
    let result = match (&r.end, killed) {
        (End::Done { .. }, false) => Some(r.value.unwrap()),
        (End::Done { .. }, true) => None,
        (e, _) => return bad("an atomic write does not return", format!("{e:?} {:?}", r.panics)),
    };
    ch.observe((name, &old, &result.as_ref().map(|r| r.is_ok()), after.len(), &events.iter().map(|e| (e.kind, e.act)).collect::<Vec<_>>()));
    let now = after.get(name).cloned();
    let others = |pic: &crate::world::Picture| pic.iter().filter(|e| e.0 != name).map(|e| (e.0.clone(), e.1.clone())).collect::<Vec<_>>();
    let removable = !events.iter().any(|e| e.kind == Kind::Unlink && e.act != Act::Run);
    match &result {
        Some(Ok(())) => {
            match (&now, &old) {
                (Some(Node::File { content, mode }), o) if *content == new => {
                    if let Some((_, m)) = o {
                        if *mode != m & 0o777 {
                            return bad("the permission bits are not kept", format!("{mode:o}, before {m:o}"));
                        }
                    }
                }
                (n, _) => return bad("a written file has other content", format!("{n:?}")),
            }
            if others(&after) != others(&before) {
                return bad("other files change", format!("{after:?}"));
            }
        }
        Some(Err(e)) => {
            if events.iter().all(|e| matches!(e.act, Act::Run | Act::Short | Act::Fail(libc::EINTR))) {
                return bad("an atomic write fails by itself", e.clone());
            }
            if now != before.get(name).cloned() {
                return bad("a failed write changes the file", format!("{now:?}: {e}"));
            }
            if removable && after != before {
                return bad("a failed write leaves a temporary file", format!("{after:?}: {e}"));
            }
        }
        None => {
            // Whoever comes next is not disturbed by what the dead left.
            let last = bytes(0, b'z');
            match rt::quietly(|| write_atomic(&path, &last)) {
                Ok(Ok(())) => {}
                e => return bad("no write succeeds after a killed one", format!("{e:?}")),
            }
            if look(&path).as_ref() != Some(&last) {
                return bad("a write after a killed one is lost", see(&look(&path)));
            }
        }
    }
    Ok(())
}

fn disturbances(events: &[sys::Event]) -> Vec<String> {
    events.iter().filter(|e| e.act != Act::Run).map(|e| format!("{:?} {:?}", e.kind, e.act)).collect()
}

/// What cannot be written to is an error, and stays as it is.
fn refused(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    let path = match ch.choose("target", 4) {
        0 => {
            std::fs::create_dir(dir.join("d")).unwrap();
            put(&dir.join("d/x"), b"x", 0o644);
            dir.join("d")
        }
        1 => dir.join("missing/file"),
        2 => {
            put(&dir.join("f"), b"f", 0o644);
            dir.join("f/file")
        }
        _ => {
            std::fs::create_dir(dir.join("empty")).unwrap();
            dir.join("empty")
        }
    };
    let before = picture(&dir);
    let r = rt::quietly(|| write_atomic(&path, "new").map_err(|e| e.to_string())).map_err(|m| Fail::new("an atomic write panics", m))?;
    let after = picture(&dir);
    ch.observe(&after);
    if r.is_ok() || before != after {
        return Err(Fail::new("an impossible write", format!("{path:?}: {r:?}, {after:?}")));
    }
    Ok(())
}

/// Writers and readers at the same time.
fn together(ch: &mut Chooser, programs: &[(usize, usize)]) -> Result<(), Fail> {
    let dir = fresh();
    let path = dir.join("file");
    let old = *ch.pick("before", &[None, Some(0), Some(2)]);
    let (writers, readers) = *ch.pick("threads", programs);
    let old = old.map(|k| bytes(k, b'o'));
    if let Some(b) = &old {
        put(&path, b, 0o640);
    }
    let news: Vec<Vec<u8>> = (0..writers).map(|w| bytes([0, 2, 3][w], b'1' + w as u8)).collect();
    let faulty = ch.choose("faulty writer", 2) == 1;
    let mut allowed: Vec<Option<Vec<u8>>> = news.iter().cloned().map(Some).collect();
    allowed.push(old.clone());
    let (p2, a2) = (path.clone(), allowed.clone());
    let mon = move || {
        let now = look(&p2);
        if a2.contains(&now) {
            Ok(())
        } else {
            Err(format!("the file holds {}", see(&now)))
        }
    };
    let mask = if faulty { 2 } else { 0 };
    sys::arm(Rules { fail: mask, short: 0, kill: mask }, Some(Box::new(mon)));
    let (p2, n2) = (path.clone(), news.clone());
    let r = rt::run(ch, rt::Opts::default(), move || {
        let ws: Vec<_> = n2
            .into_iter()
            .enumerate()
            .map(|(w, n)| {
                let p: PathBuf = p2.clone();
                rt::spawn(["w0", "w1", "w2"][w], move || write_atomic(p, n).map_err(|e| e.to_string()))
            })
            .collect();
        let rs: Vec<_> = (0..readers)
            .map(|k| {
                let p = p2.clone();
                rt::spawn(["r0", "r1"][k], move || (0..2).map(|_| std::fs::read(&p)).collect::<Vec<_>>())
            })
            .collect();
        let ws: Vec<_> = ws.into_iter().map(|h| h.join().ok()).collect();
        let rs: Vec<_> = rs.into_iter().map(|h| h.join().unwrap()).collect();
        (ws, rs)
    });
    let (events, broken) = sys::disarm();
    sys::take_dead();
    let what = format!("{writers} writers over {}, {:?}", see(&old), disturbances(&events));
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if let Some(b) = broken {
        return bad("a reader sees neither the old nor the new content", b);
    }
    let Some((ws, rs)) = r.value else { return bad("atomic writes do not return", format!("{:?} {:?}", r.end, r.panics)) };
    for reads in &rs {
        for x in reads {
            let x = match x {
                Ok(b) => Some(b.clone()),
                Err(e) if e.kind() == std::io::ErrorKind::NotFound && old.is_none() => None,
                Err(e) => return bad("a reader does not find the file", e.to_string()),
            };
            if !allowed.contains(&x) {
                return bad("a reader sees neither the old nor the new content", see(&x));
            }
        }
    }
    let disturbed = sys::disturbed(&events);
    let mut finals: BTreeSet<Option<Vec<u8>>> = BTreeSet::new();
    for (w, r) in ws.iter().enumerate() {
        match r {
            Some(Ok(())) => drop(finals.insert(Some(news[w].clone()))),
            Some(Err(e)) if !(disturbed && w == 0) => return bad("an atomic write fails by itself", e.clone()),
            Some(Err(_)) => {}
            None if !disturbed => return bad("a writer panics", format!("{:?}", r)),
            // Killed before or after its last step.
            None => drop(finals.insert(Some(news[w].clone()))),
        }
    }
    if !ws.iter().any(|w| matches!(w, Some(Ok(())))) {
        finals.insert(old.clone());
    }
    let now = look(&path);
    if !finals.contains(&now) {
        return bad("the last write is lost", see(&now));
    }
    let stale = picture(&dir).len() - usize::from(now.is_some());
    let may_stay = events.iter().any(|e| matches!(e.act, Act::Kill | Act::Torn) || e.kind == Kind::Unlink && e.act != Act::Run);
    if stale > 0 && !may_stay {
        return bad("a temporary file stays", format!("{:?}", picture(&dir)));
    }
    ch.observe((&ws, rs.len(), &now, rs.iter().flatten().map(|x| x.as_ref().ok().cloned()).collect::<Vec<_>>()));
    Ok(())
}

pub fn atomic_writes(ctx: &mut Ctx) {
    let cfg = |bound| Config { bound, ..Config::default() };
    let bound = ctx.by(2, 3);
    ctx.explore_with(
        "one writer",
        "fault schedules",
        &format!("one atomic write over seven former files of three names with four contents; every placement of up to {bound} failures, short writes, kills and torn writes among its system calls; the file is read after every call"),
        cfg(bound),
        alone,
    );
    ctx.explore("refused targets", "inputs", "directories and missing parents", 0, refused);
    let bound = ctx.by(2, 3);
    let programs: &[(usize, usize)] = if ctx.thorough() { &[(1, 1), (2, 1), (2, 0), (1, 2), (3, 0)] } else { &[(1, 1), (2, 1), (2, 0)] };
    ctx.explore_with(
        "writers and readers",
        "schedules",
        &format!("writers and readers {programs:?} over one file, every schedule of their system calls with up to {bound} preemptions, failures and kills of the first writer"),
        cfg(bound),
        |ch| together(ch, programs),
    );
}
