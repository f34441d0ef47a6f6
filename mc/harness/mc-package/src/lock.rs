//! K03: the project lock file on real files: what an update stores is what
//! everybody reads afterwards.

use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use tinymist_project::*;

use crate::sys::{self, Act, Kind, Rules};
use crate::world::fresh;

/// Strings of names, paths, scripts and patterns.
const STRINGS: &[&str] = &[
    "main.typ",
    "",
    "a:b.typ",
    "C:/x/y.typ",
    "::",
    "q\"'\\",
    "new\nline\ttab",
    "\r\n",
    "é文🎉",
    "[[task]]",
    "# no comment",
    "'''\"\"\"",
    "a = 1\n[document]",
    "\u{1}\u{7f}",
    " ",
    "../up/./x",
    "$root/$dir/$name",
];

fn path(s: &str) -> ResourcePath {
    ResourcePath::from_user_sys(Path::new(s))
}

fn document(id: &str) -> ProjectInput {
    ProjectInput {
        id: Id::new(id.into()),
        root: Some(path(".")),
        main: path("main.typ"),
        inputs: vec![],
        font_paths: vec![],
        system_fonts: true,
        package_path: None,
        package_cache_path: None,
    }
}

fn export(when: TaskWhen, output: Option<&str>, transform: Vec<ExportTransform>) -> ExportTask {
    ExportTask { when, output: output.map(PathPattern::new), transform }
}

const KINDS: usize = 9;
/// A task of every kind, with every string of it being `s`.
fn task(kind: usize, s: &str, e: ExportTask) -> ProjectTask {
    match kind {
        0 => ProjectTask::Preview(PreviewTask { when: e.when }),
        1 => ProjectTask::ExportPdf(ExportPdfTask { export: e, pdf_standards: if s.is_empty() { vec![] } else { vec![PdfStandard::V_1_7, PdfStandard::A_2b] }, creation_timestamp: if s.is_empty() { None } else { Some(-3) } }),
        2 => ProjectTask::ExportPng(ExportPngTask { export: e, ppi: Scalar::try_from(if s.is_empty() { 144.0 } else { 0.1 }).unwrap(), fill: if s == " " { None } else { Some(s.into()) } }),
        3 => ProjectTask::ExportSvg(ExportSvgTask { export: e }),
        4 => ProjectTask::ExportHtml(ExportHtmlTask { export: e }),
        5 => ProjectTask::ExportSvgHtml(ExportHtmlTask { export: e }),
        6 => ProjectTask::ExportMd(ExportMarkdownTask { export: e }),
        7 => ProjectTask::ExportText(ExportTextTask { export: e }),
        _ => ProjectTask::Query(QueryTask { export: e, format: s.into(), output_extension: (s != " ").then(|| s.into()), selector: s.into(), field: (s != "").then(|| s.into()), one: s.is_empty() }),
    }
}

fn transforms(i: usize, s: &str) -> Vec<ExportTransform> {
    let p = |x: &str| Pages::from_str(x).unwrap();
    let pages = ExportTransform::Pages { ranges: vec![p("4"), p("1-3"), p("5-"), p("-2")] };
    let merge = |g: Option<&str>| ExportTransform::Merge { gap: g.map(Into::into) };
    match i {
        0 => vec![],
        1 => vec![pages],
        2 => vec![merge(Some(s))],
        3 => vec![merge(None)],
        4 => vec![ExportTransform::Script { script: Some(s.into()) }, ExportTransform::Script { script: None }],
        5 => vec![ExportTransform::Pretty { script: None }],
        6 => vec![ExportTransform::Pretty { script: Some(s.into()) }, pages, merge(Some(s))],
        _ => vec![ExportTransform::Pages { ranges: vec![] }],
    }
}
const TRANSFORMS: usize = 8;
const WHENS: &[TaskWhen] = &[TaskWhen::Never, TaskWhen::OnSave, TaskWhen::OnType, TaskWhen::OnDocumentHasTitle];

fn empty() -> LockFile {
    LockFile::default()
}
fn copy(l: &LockFile) -> LockFile {
    let mut n = empty();
    n.document = l.document.clone();
    n.task = l.task.clone();
    n.route = l.route.clone();
    n
}
fn file(d: &Path) -> PathBuf {
    d.join(LOCK_FILENAME)
}
fn bytes(d: &Path) -> Option<Vec<u8>> {
    std::fs::read(file(d)).ok()
}

/// What an update sees.
fn seen(d: &Path) -> Result<LockFile, String> {
    let mut got = None;
    LockFile::update(d, |l| {
        got = Some(copy(l));
        Ok(())
    })
    .map_err(|e| format!("{e:?}"))?;
    Ok(got.unwrap())
}

/// Everybody sees `want` from now on, and looking changes nothing.
fn stored(d: &Path, want: &LockFile, what: &str) -> Result<(), Fail> {
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    let before = bytes(d);
    match LockFile::read(d) {
        Err(e) => return bad("what an update stored can't be read", format!("{e:?} for {want:?}")),
        Ok(l) if l != *want => return bad("what is read isn't what was stored", format!("{l:?}\ninstead of {want:?}")),
        Ok(_) => {}
    }
    // When the file was written last.
    let old = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000);
    let _ = std::fs::File::options().write(true).open(file(d)).and_then(|f| f.set_modified(old));
    let got = seen(d);
    let written = std::fs::metadata(file(d)).and_then(|m| m.modified()).ok() != Some(old);
    match got {
        Err(e) => return bad("what an update stored can't be updated", format!("{e} for {want:?}")),
        Ok(l) if l != *want => return bad("an update sees something else than was stored", format!("{l:?}\ninstead of {want:?}")),
        Ok(_) => {}
    }
    if written {
        return bad("an update that changes nothing writes the file", format!("{want:?}"));
    }
    if bytes(d) != before {
        return bad("an update that changes nothing changes the file", format!("{want:?}"));
    }
    Ok(())
}

/// One document, task and route of any shape.
fn shapes(ch: &mut Chooser) -> Result<(), Fail> {
    let d = fresh();
    let s = *ch.pick("string", STRINGS);
    let t = *ch.pick("other string", &["x", "a:b", ""]);
    let mut want = empty();
    let what = ch.choose("what", 3);
    match what {
        0 => {
            let mut doc = document(s);
            match ch.choose("where", 6) {
                0 => doc.main = path(s),
                1 => doc.root = Some(path(s)),
                2 => doc.font_paths = vec![path(s), path(t)],
                3 => doc.inputs = vec![(s.into(), t.into()), (t.into(), s.into())],
                4 => {
                    doc.package_path = Some(path(s));
                    doc.package_cache_path = Some(path(t));
                }
                _ => {
                    doc.root = None;
                    doc.system_fonts = false;
                }
            }
            want.document = vec![doc];
        }
        1 => {
            let kind = ch.choose("kind", KINDS);
            let e = if kind == 0 {
                export(*ch.pick("when", WHENS), None, vec![])
            } else {
                let when = WHENS[ch.choose("transform", TRANSFORMS) % 4];
                let tr = transforms(ch.choose("transforms", TRANSFORMS), s);
                export(when, (!t.is_empty()).then_some(s), tr)
            };
            want.task = vec![ApplyProjectTask { id: Id::new(s.into()), document: Id::new(t.into()), task: task(kind, s, e) }];
        }
        _ => {
            let p = *ch.pick("priority", &[0, 1, u32::MAX]);
            want.route = [ProjectRoute { id: Id::new(s.into()), priority: p }, ProjectRoute { id: Id::new(format!("{t}2")), priority: 7 }].into_iter().collect();
        }
    }
    ch.observe(format!("{want:?}"));
    let w = copy(&want);
    if let Err(e) = LockFile::update(&d, |l| {
        *l = w;
        Ok(())
    }) {
        return Err(Fail::new("an update fails", format!("{e:?} for {want:?}")));
    }
    stored(&d, &want, "after the update")
}

/// What a path of a user means does not change on its way through the file.
fn paths(ch: &mut Chooser) -> Result<(), Fail> {
    let a = *ch.pick("first", &["", "a", "b:c", "..", ".", "/abs", "é"]);
    let b = *ch.pick("second", &["", "/x.typ", "/y:z", "/..", ":"]);
    let p = format!("{a}{b}");
    let rp = path(&p);
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{p:?}: {m}")));
    let text = rp.to_string();
    ch.observe(&text);
    match ResourcePath::from_str(&text) {
        Ok(q) if q == rp => {}
        q => return bad("a resource path isn't read back", format!("{text:?} is {q:?}")),
    }
    let cwd = std::env::current_dir().unwrap();
    let clean = |p: PathBuf| {
        let mut out = PathBuf::new();
        for c in p.components() {
            match c {
                std::path::Component::CurDir => {}
                std::path::Component::ParentDir => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        out
    };
    let want = clean(cwd.join(&p));
    match rp.to_abs_path(&cwd).map(clean) {
        Some(g) if g == want => {}
        g => return bad("a resource path leads elsewhere", format!("{g:?} instead of {want:?}")),
    }
    match rp.to_rel_path(&cwd).map(|r| clean(cwd.join(r))) {
        Some(g) if g == want => Ok(()),
        g => bad("a relative resource path leads elsewhere", format!("{g:?} instead of {want:?}")),
    }
}

/// The states of a reference model.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Disk {
    Missing,
    Good,
    Broken,
}

fn some_task(id: &str, doc: &str, kind: usize) -> ApplyProjectTask {
    ApplyProjectTask { id: Id::new(id.into()), document: Id::new(doc.into()), task: task(kind, "x", export(TaskWhen::OnSave, Some("o"), if kind == 1 { transforms(6, "y") } else { vec![] })) }
}

fn history(ch: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let d = fresh();
    let mut disk = Disk::Missing;
    let mut want = empty();
    let mut done: Vec<String> = vec![];
    for _ in 0..depth {
        let op = ch.choose("op", 18);
        let before = bytes(&d);
        let mut apply: Option<Box<dyn Fn(&mut LockFile)>> = None;
        let what = match op {
            // Documents, of two identities and two contents.
            0..=3 => {
                let mut doc = document(["b", "a"][op % 2]);
                doc.system_fonts = op < 2;
                let i = want.document.iter().position(|x| x.id == doc.id);
                match i {
                    Some(i) => want.document[i] = doc.clone(),
                    None => want.document.push(doc.clone()),
                }
                let w = format!("document {} {}", doc.id, op < 2);
                apply = Some(Box::new(move |l| l.replace_document(doc.clone())));
                w
            }
            // Tasks; one of them moves between documents.
            4..=7 => {
                let t = [some_task("t", "b", 1), some_task("s", "b", 2), some_task("t", "a", 0), some_task("u", "a", 8)][op - 4].clone();
                let i = want.task.iter().position(|x| x.id == t.id);
                match i {
                    Some(i) => want.task[i] = t.clone(),
                    None => want.task.push(t.clone()),
                }
                let w = format!("task {} of {}", t.id, t.document);
                apply = Some(Box::new(move |l| l.replace_task(t.clone())));
                w
            }
            // Routes: the last one put is the last one.
            8..=10 => {
                let r = ProjectRoute { id: Id::new(["b", "a", "b"][op - 8].into()), priority: op as u32 };
                let old: Vec<_> = want.route.iter().filter(|x| x.id != r.id).cloned().collect();
                want.route = old.into_iter().chain([r.clone()]).collect();
                let w = format!("route {} {}", r.id, r.priority);
                apply = Some(Box::new(move |l| l.replace_route(r.clone())));
                w
            }
            11 => "an update that fails".into(),
            12 => {
                // What clients do.
                let t = some_task("c", "c", 4);
                let i = want.task.iter().position(|x| x.id == t.id);
                let keep = copy(&want);
                match i {
                    Some(i) => want.task[i] = t.clone(),
                    None => want.task.push(t.clone()),
                }
                let r = ProjectRoute { id: Id::new("c".into()), priority: 0 };
                let old: Vec<_> = want.route.iter().filter(|x| x.id != r.id).cloned().collect();
                want.route = old.into_iter().chain([r]).collect();
                let mut u = update_lock(Arc::from(d.as_path()));
                u.task(t);
                u.route(Id::new("c".into()), 0);
                u.commit();
                if disk == Disk::Broken {
                    want = keep;
                } else {
                    disk = Disk::Good;
                }
                "a commit".into()
            }
            13..=16 => {
                let (w, text): (_, &[u8]) = [
                    ("no TOML", b"version = \n[[" as &[u8]),
                    ("a future version", b"version = \"99.0.0\"\n"),
                    ("no UTF-8", b"version = \"0.1.0-beta0\"\n# \xff\n"),
                    ("a strange version", b"version = \"new\"\n"),
                ][op - 13];
                std::fs::write(file(&d), text).unwrap();
                disk = Disk::Broken;
                want = empty();
                format!("somebody writes {w}")
            }
            _ => {
                std::fs::write(file(&d), b" \n").unwrap();
                disk = Disk::Missing;
                want = empty();
                "somebody empties the file".into()
            }
        };
        done.push(what);
        ch.observe(done.last().unwrap());
        let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{done:?}: {m}")));
        if let Some(f) = apply {
            match (LockFile::update(&d, |l| { f(l); Ok(()) }), &disk) {
                (Ok(()), Disk::Broken) => return bad("a lock file that can't be read is updated", format!("{:?}", bytes(&d))),
                (Err(_), Disk::Broken) => want = empty(),
                (Err(e), _) => return bad("an update fails", format!("{e:?}")),
                (Ok(()), _) => disk = Disk::Good,
            }
        }
        if op == 11 {
            let r = LockFile::update(&d, |l| {
                l.replace_document(document("never"));
                l.replace_route(ProjectRoute { id: Id::new("never".into()), priority: 0 });
                Err(tinymist_std::error_once!("no"))
            });
            if r.is_ok() {
                return bad("a failed update is reported as done", String::new());
            }
        }
        want.document.sort_by(|a, b| a.id.cmp(&b.id));
        want.task.sort_by(|a, b| (a.doc_id(), a.id()).cmp(&(b.doc_id(), b.id())));
        match disk {
            Disk::Broken => {
                if (op < 13) && bytes(&d) != before {
                    return bad("a lock file that can't be read is overwritten", format!("{:?}", bytes(&d)));
                }
                if LockFile::read(&d).is_ok() {
                    return bad("a lock file that can't be understood is read", String::new());
                }
            }
            Disk::Missing => {
                // Nothing is in there, and nothing has been written.
                if op < 13 && bytes(&d).is_some_and(|b| !b.trim_ascii().is_empty()) {
                    return bad("an update that failed stores something", format!("{:?}", bytes(&d)));
                }
            }
            Disk::Good => {
                if op == 11 && bytes(&d) != before {
                    return bad("an update that failed changes the file", format!("{:?}", bytes(&d)));
                }
                stored(&d, &want, &format!("{done:?}"))?;
            }
        }
    }
    Ok(())
}

/// Who did what, in the order of its completion.
#[derive(Default)]
struct Log {
    done: Vec<usize>,
    begun: Vec<usize>,
    wrong: Option<(String, String)>,
}

fn together(ch: &mut Chooser, updates: usize, readers: usize, filled: bool) -> Result<(), Fail> {
    let d = fresh();
    if filled {
        LockFile::update(&d, |l| {
            for i in 0..3 {
                l.replace_document(document(&format!("old{i}")));
            }
            Ok(())
        })
        .unwrap();
    }
    let log: Arc<Mutex<Log>> = Arc::default();
    let (d2, l2) = (d.clone(), log.clone());
    sys::arm(Rules::default(), None);
    let r = rt::run(ch, rt::Opts::delays(), move || {
        let mut ths = vec![];
        for i in 0..updates {
            let (d, log) = (d2.clone(), l2.clone());
            ths.push(rt::spawn("update", move || {
                log.lock().unwrap().begun.push(i);
                let r = LockFile::update(&d, |l| {
                    l.replace_document(document(&format!("new{i}")));
                    l.replace_route(ProjectRoute { id: Id::new("shared".into()), priority: i as u32 });
                    Ok(())
                });
                let mut g = log.lock().unwrap();
                match r {
                    Ok(()) => g.done.push(i),
                    Err(e) => g.wrong = Some(("an update fails because of another".into(), format!("{i}: {e:?}"))),
                }
            }));
        }
        for _ in 0..readers {
            let (d, log) = (d2.clone(), l2.clone());
            ths.push(rt::spawn("reader", move || {
                let must = log.lock().unwrap().done.clone();
                let r = LockFile::read(&d);
                let mut g = log.lock().unwrap();
                match r {
                    Err(e) if filled || !must.is_empty() => g.wrong = Some(("a reader fails because of an update".into(), format!("{e:?} after {must:?}"))),
                    Err(_) => {}
                    Ok(l) => {
                        let has = |n: String| l.document.iter().any(|x| x.id == Id::new(n.clone()));
                        let missing = must.iter().any(|i| !has(format!("new{i}"))) || filled && (0..3).any(|i| !has(format!("old{i}")));
                        let early = (0..updates).any(|i| has(format!("new{i}")) && !g.begun.contains(&i));
                        let news = (0..updates).filter(|i| has(format!("new{i}"))).count();
                        if missing || early || l.route.len() != news.min(1) {
                            g.wrong = Some(("a reader sees what never was".into(), format!("{l:?} after {must:?}")));
                        }
                    }
                }
            }));
        }
        for t in ths {
            let _ = t.join();
        }
    });
    let _ = sys::disarm();
    if !matches!(&r.end, End::Done { leaked } if leaked.is_empty()) || !r.panics.is_empty() {
        return Err(Fail::new("updating together does not return", format!("{:?} {:?}", r.end, r.panics)));
    }
    let g = log.lock().unwrap();
    ch.observe((updates, readers, filled, &g.done));
    if let Some((sig, m)) = &g.wrong {
        return Err(Fail::new(sig.clone(), m.clone()));
    }
    let l = match LockFile::read(&d) {
        Ok(l) => l,
        Err(e) => return Err(Fail::new("what updates stored together can't be read", format!("{e:?}"))),
    };
    let mut ids: Vec<String> = (0..updates).map(|i| format!("new{i}")).collect();
    if filled {
        ids.extend((0..3).map(|i| format!("old{i}")));
    }
    ids.sort();
    let got: Vec<String> = l.document.iter().map(|x| x.id.to_string()).collect();
    if got != ids {
        return Err(Fail::new("an update gets lost", format!("{got:?} instead of {ids:?}")));
    }
    if l.route.len() != 1 {
        return Err(Fail::new("an update gets lost", format!("{:?}", l.route)));
    }
    Ok(())
}

/// One update while calls of the system fail.
fn faults(ch: &mut Chooser) -> Result<(), Fail> {
    let d = fresh();
    let old = ch.choose("filled", 2) == 1;
    let mut want = empty();
    if old {
        LockFile::update(&d, |l| {
            // More than the update leaves.
            l.replace_document(document(&"long".repeat(20)));
            l.replace_route(ProjectRoute { id: Id::new("r".into()), priority: 1 });
            Ok(())
        })
        .unwrap();
    }
    let before = bytes(&d);
    want.document = vec![document("new")];
    let (d2, w) = (d.clone(), copy(&want));
    sys::arm(Rules { fail: !0, short: !0, kill: 0 }, None);
    let r = rt::run(ch, rt::Opts::delays(), move || {
        LockFile::update(&d2, |l| {
            *l = w;
            Ok(())
        })
        .map_err(|e| format!("{e:?}"))
    });
    let (events, _) = sys::disarm();
    let did: Vec<_> = events.iter().filter(|e| e.act != Act::Run).map(|e| format!("{:?} {} {:?}", e.kind, e.path.as_deref().map_or(String::new(), sys::shown), e.act)).collect();
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{did:?}: {m}")));
    if !matches!(&r.end, End::Done { .. }) || !r.panics.is_empty() {
        return bad("an update does not return", format!("{:?} {:?}", r.end, r.panics));
    }
    let r = r.value.unwrap();
    ch.observe((old, r.is_ok(), events.iter().map(|e| (e.kind, e.act)).collect::<Vec<_>>()));
    match r {
        Ok(()) => stored(&d, &want, &format!("{did:?}, reported as done")),
        Err(e) if did.is_empty() => bad("an update fails", e),
        Err(e) => {
            let touched = events.iter().any(|e| matches!(e.kind, Kind::Write | Kind::Truncate) && !matches!(e.act, Act::Fail(_)));
            if !touched && bytes(&d).unwrap_or_default() != before.unwrap_or_default() {
                return bad("an update that failed before writing changes the file", e);
            }
            Ok(())
        }
    }
}

pub fn lock(ctx: &mut Ctx) {
    ctx.explore(
        "contents",
        "inputs",
        &format!("every field of a document, a task of every kind with every transform, and a route, with {} strings and 3 others; read, and updated without a change", STRINGS.len()),
        0,
        shapes,
    );
    ctx.explore("resource paths", "inputs", "35 paths, to text and back, and to the file system", 0, paths);
    let depth = ctx.by(3, 4);
    ctx.explore(
        "histories",
        "histories",
        &format!("{depth} of 18 operations: updates of documents, tasks and routes, a commit, an update that fails, and what others write into the file; read, and updated without a change, after each"),
        0,
        |ch| history(ch, depth),
    );
    let bound = ctx.by(2, 3);
    for filled in [false, true] {
        ctx.explore(
            if filled { "updates of a filled file" } else { "updates of a new file" },
            "schedules",
            &format!("two updates and a reader, every schedule of their system calls with up to {bound} delays"),
            bound,
            |ch| together(ch, 2, 1, filled),
        );
    }
    let bound = ctx.by(1, 2);
    ctx.explore(
        "three updates",
        "schedules",
        &format!("three updates and two readers, every schedule of their system calls with up to {bound} delays"),
        bound,
        |ch| together(ch, 3, 2, true),
    );
    let bound = ctx.by(1, 2);
    ctx.explore("failing calls", "faults", &format!("an update of a missing or a longer file, with up to {bound} failing or short system calls"), bound, faults);
}
