//! K01: a package that is handed out is complete, whatever happens to this and
//! other downloads of it.

use std::cell::{Cell, RefCell};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use reqwest::Answer;
use tinymist_package::registry::{DummyNotifier, PackageStorage};
use tinymist_package::{PackageError, PackageSpec};
use typst::syntax::package::PackageVersion;

use crate::sys::{self, Act, Rules};
use crate::world::{fresh, picture, Node};

pub fn spec(namespace: &str, name: &str, v: (u32, u32, u32)) -> PackageSpec {
    PackageSpec {
        namespace: namespace.into(),
        name: name.into(),
        version: PackageVersion { major: v.0, minor: v.1, patch: v.2 },
    }
}

/// What the archive of a package holds.
pub const FILES: &[(&str, &str)] = &[("typst.toml", "[package]"), ("lib.typ", "#let a = 1")];

pub fn archive(files: &[(&str, &str)]) -> Vec<u8> {
    let gz = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
    let mut b = tar::Builder::new(gz);
    for (p, c) in files {
        let mut h = tar::Header::new_gnu();
        h.set_size(c.len() as u64);
        h.set_mode(0o644);
        h.set_cksum();
        b.append_data(&mut h, p, c.as_bytes()).unwrap();
    }
    b.into_inner().unwrap().finish().unwrap()
}

/// What a server may answer, and whether that is the package.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Served {
    Good,
    /// The body ends early, in the middle of the last file.
    Cut,
    /// So does the connection.
    Broken,
    /// No archive at all.
    Rubbish,
    Missing,
    Status500,
    Unreachable,
}
pub const SERVED: &[Served] = &[Served::Good, Served::Cut, Served::Broken, Served::Rubbish, Served::Missing, Served::Status500, Served::Unreachable];

impl Served {
    pub fn answer(self) -> Answer {
        let good = archive(FILES);
        // Stored uncompressed, so that a part of it is a part of the files.
        let stored = || {
            let raw = {
                let mut r = vec![];
                std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(&good[..]), &mut r).unwrap();
                r
            };
            let mut gz = flate2::write::GzEncoder::new(vec![], flate2::Compression::none());
            std::io::Write::write_all(&mut gz, &raw).unwrap();
            let all = gz.finish().unwrap();
            let at = all.windows(10).position(|w| w == b"#let a = 1").unwrap() + 4;
            all[..at].to_vec()
        };
        match self {
            Served::Good => Answer::Body(200, good, false),
            Served::Cut => Answer::Body(200, stored(), false),
            Served::Broken => Answer::Body(200, stored(), true),
            Served::Rubbish => Answer::Body(200, b"<html>hello</html>".to_vec(), false),
            Served::Missing => Answer::Body(404, vec![], false),
            Served::Status500 => Answer::Body(500, vec![], false),
            Served::Unreachable => Answer::Unreachable,
        }
    }

    /// Whether this is how the failure is to be reported.
    pub fn explains(self, e: &PackageError, s: &PackageSpec) -> bool {
        match self {
            Served::Good => false,
            Served::Cut | Served::Broken | Served::Rubbish => matches!(e, PackageError::MalformedArchive(_)),
            Served::Missing => matches!(e, PackageError::NotFound(n) if n == s),
            Served::Status500 | Served::Unreachable => matches!(e, PackageError::NetworkFailed(_)),
        }
    }
}

/// Answers by order; the last one again and again.
pub fn serve(answers: Vec<Served>) -> Rc<RefCell<Vec<String>>> {
    let asked: Rc<RefCell<Vec<String>>> = Rc::default();
    let (a2, n) = (asked.clone(), Cell::new(0));
    reqwest::serve(move |url| {
        a2.borrow_mut().push(url.into());
        let i = n.get();
        n.set(i + 1);
        answers[i.min(answers.len() - 1)].answer()
    });
    asked
}

pub fn storage(cache: Option<PathBuf>, data: Option<PathBuf>) -> PackageStorage {
    PackageStorage::new(cache.map(Into::into), data.map(Into::into), None, Arc::new(parking_lot::Mutex::new(DummyNotifier)))
}

/// What is missing of a package, or wrong with it.
pub fn flaw(dir: &Path) -> Option<String> {
    let pic = picture(dir);
    for (p, c) in FILES {
        match pic.get(*p) {
            Some(Node::File { content, .. }) if content == c.as_bytes() => {}
            n => return Some(format!("{p}: {n:?}")),
        }
    }
    let more: Vec<_> = pic.keys().filter(|k| !FILES.iter().any(|f| f.0 == *k)).collect();
    (!more.is_empty()).then(|| format!("also {more:?}"))
}

type Got = Result<PathBuf, PackageError>;

/// One call, and what it returned was like at once.
fn prepare(st: &PackageStorage, s: &PackageSpec) -> (Got, Option<String>) {
    let r = st.prepare_package(s).map(|p| p.to_path_buf());
    let flaw = r.as_ref().ok().and_then(|p| sys::pass(|| flaw(p)));
    (r, flaw)
}

fn shown(r: &Got) -> String {
    match r {
        Ok(p) => format!("Ok({})", sys::shown(p)),
        Err(e) => format!("Err({e:?})"),
    }
}

/// Whoever asks afterwards, undisturbed, gets it.
fn later(cache: &Path, s: &PackageSpec) -> Result<(), Fail> {
    let _asked = serve(vec![Served::Good]);
    let st = storage(Some(cache.into()), None);
    match rt::quietly(|| st.prepare_package(s)) {
        Ok(Ok(p)) => match flaw(&p) {
            None => Ok(()),
            Some(f) => Err(Fail::new("an incomplete package is handed out later", f)),
        },
        e => Err(Fail::new("a package cannot be had later", format!("{e:?}"))),
    }
}

/// The directory that a package is in, seen from outside.
fn home(cache: &Path, s: &PackageSpec) -> PathBuf {
    cache.join(format!("{}/{}/{}", s.namespace, s.name, s.version))
}

/// One caller whose calls fail or are its last ones.
fn alone(ch: &mut Chooser) -> Result<(), Fail> {
    let dir = fresh();
    let cache = dir.join("cache");
    match ch.choose("before", 3) {
        0 => {}
        1 => std::fs::create_dir(&cache).unwrap(),
        _ => {
            std::fs::create_dir_all(cache.join("preview/p/0.9.0")).unwrap();
            std::fs::write(cache.join("preview/p/0.9.0/x"), "x").unwrap();
        }
    }
    let before = picture(&cache.join("preview/p/0.9.0"));
    let served = *ch.pick("served", SERVED);
    let s = spec("preview", "p", (1, 0, 0));
    let asked = serve(vec![served]);
    sys::arm(Rules { fail: !0, short: 0, kill: !0 }, None);
    let (c2, s2) = (cache.clone(), s.clone());
    let r = rt::run(ch, rt::Opts::delays(), move || prepare(&storage(Some(c2), None), &s2));
    let (events, _) = sys::disarm();
    let killed = sys::take_dead() != 0;
    let quiet = events.iter().all(|e| e.act == Act::Run);
    let did: Vec<_> = events.iter().filter(|e| e.act != Act::Run).map(|e| format!("{:?} {} {:?}", e.kind, e.path.as_deref().map_or(String::new(), sys::shown), e.act)).collect();
    let what = format!("the server says {served:?}, {did:?}");
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if !killed && !matches!(&r.end, End::Done { leaked } if leaked.is_empty()) {
        return bad("preparing a package does not return", format!("{:?} {:?}", r.end, r.panics));
    }
    if !r.panics.is_empty() {
        return bad("preparing a package panics", format!("{:?}", r.panics));
    }
    ch.observe((served, killed, r.value.as_ref().map(|v| v.0.is_ok()), events.iter().map(|e| (e.kind, e.act)).collect::<Vec<_>>()));
    if let Some((got, flaw)) = &r.value {
        if let Some(f) = flaw {
            return bad("an incomplete package is handed out", f.clone());
        }
        match got {
            Ok(p) if *p != home(&cache, &s) => return bad("another directory is handed out", shown(got)),
            Ok(_) if served != Served::Good => return bad("a package that was not served is handed out", shown(got)),
            Err(e) if quiet && !served.explains(e, &s) => return bad("the wrong error is reported", shown(got)),
            _ => {}
        }
        if quiet {
            let left: Vec<_> = picture(&cache).into_keys().filter(|k| k.starts_with("preview/p/") && !k.starts_with("preview/p/0.9.0") && !(got.is_ok() && (k == "preview/p/1.0.0" || k.starts_with("preview/p/1.0.0/")))).collect();
            if !left.is_empty() {
                return bad("a download leaves something behind", format!("{left:?}"));
            }
        }
    }
    if asked.borrow().len() > 1 {
        return bad("a package is asked for twice", format!("{:?}", asked.borrow()));
    }
    if picture(&cache.join("preview/p/0.9.0")) != before {
        return bad("another version changes", format!("{:?}", picture(&cache)));
    }
    later(&cache, &s).or_else(|f| Err(Fail::new(f.sig.clone(), format!("{what}: {} after {:?}", f.msg, r.value.as_ref().map(|v| shown(&v.0))))))
}

/// Callers of the same package at the same time.
fn together(ch: &mut Chooser, n: usize, kills: bool, of: &'static [Served]) -> Result<(), Fail> {
    let dir = fresh();
    let cache = dir.join("cache");
    // Whoever is killed is a process of its own.
    let shared = !kills && ch.choose("of one process", 2) == 0;
    let served: Vec<Served> = (0..n).map(|_| *ch.pick("served", of)).collect();
    let s = spec("preview", "p", (1, 0, 0));
    let _asked = serve(served.clone());
    sys::arm(Rules { fail: 0, short: 0, kill: if kills { !0 } else { 0 } }, None);
    let (c2, s2) = (cache.clone(), s.clone());
    let r = rt::run(ch, rt::Opts::delays(), move || {
        let one = Arc::new(storage(Some(c2.clone()), None));
        let ths: Vec<_> = (0..n)
            .map(|_| {
                let st = if shared { one.clone() } else { Arc::new(storage(Some(c2.clone()), None)) };
                let s = s2.clone();
                rt::spawn("caller", move || prepare(&st, &s))
            })
            .collect();
        ths.into_iter().map(|t| t.join().ok()).collect::<Vec<_>>()
    });
    let _ = sys::disarm();
    let killed = sys::take_dead() != 0;
    let what = format!("the server says {served:?}, {}{}", if shared { "one store" } else { "a store each" }, if killed { ", one is killed" } else { "" });
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if !matches!(&r.end, End::Done { .. }) || !r.panics.is_empty() {
        return bad("preparing a package together does not return", format!("{:?} {:?}", r.end, r.panics));
    }
    let got = r.value.unwrap();
    ch.observe((&served, shared, killed, got.iter().map(|g| g.as_ref().map(|g| g.0.is_ok())).collect::<Vec<_>>()));
    let all: Vec<String> = got.iter().map(|g| g.as_ref().map_or("killed".into(), |g| shown(&g.0))).collect();
    let mut any = false;
    for (i, g) in got.iter().enumerate() {
        let Some((g, f)) = g else {
            if killed {
                continue;
            }
            return bad("a caller panics", format!("{all:?}"));
        };
        if let Some(f) = f {
            return bad("an incomplete package is handed out", format!("{f}, to {i} of {all:?}"));
        }
        match g {
            Ok(p) => {
                any = true;
                if let Some(f) = flaw(p) {
                    return bad("a package that was handed out goes or changes", format!("{f}, to {i} of {all:?}"));
                }
            }
            // Its download was killed.
            Err(PackageError::Other(_)) if killed => {}
            Err(e) if !served.iter().any(|a| a.explains(e, &s)) => return bad("a caller fails because of another", format!("{all:?}")),
            Err(_) => {}
        }
    }
    if !any && !killed && served.iter().all(|a| *a == Served::Good) {
        return bad("nobody gets the package", format!("{all:?}"));
    }
    later(&cache, &s).or_else(|f| Err(Fail::new(f.sig.clone(), format!("{what}: {} after {all:?}", f.msg))))
}

pub fn complete(ctx: &mut Ctx) {
    let bound = ctx.by(1, 2);
    ctx.explore(
        "one download",
        "faults",
        &format!("{} answers of the server over 3 stores, up to {bound} failures or kills of the system calls of the download; then another call", SERVED.len()),
        bound,
        alone,
    );
    use Served::*;
    let bound = ctx.by(1, 2);
    ctx.explore(
        "two callers",
        "schedules",
        &format!("two callers with one store or one each, 9 pairs of answers, every schedule of their system calls with up to {bound} delays; then another call"),
        bound,
        |ch| together(ch, 2, false, &[Good, Cut, Missing]),
    );
    let bound = ctx.by(2, 3);
    ctx.explore(
        "two callers, one killed",
        "schedules",
        &format!("two callers with a store each that get the package, up to {bound} delays and kills of the callers and their downloads; then another call"),
        bound,
        |ch| together(ch, 2, true, &[Good]),
    );
    let of: &[Served] = ctx.by(&[Good, Cut], &[Good, Cut, Missing]);
    ctx.explore(
        "three callers",
        "schedules",
        &format!("three callers with one store or one each, {} answers, every schedule with one delay; then another call", of.len().pow(3)),
        1,
        |ch| together(ch, 3, false, if of.len() == 2 { &[Good, Cut] } else { &[Good, Cut, Missing] }),
    );
}
