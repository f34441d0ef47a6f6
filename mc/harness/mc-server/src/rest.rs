//! S02: at rest the client knows what the projects are.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt;
use serde_json::Value;
use tinymist::project::{Interrupt, ProjectInsId};
use tinymist_query::{path_to_url, PositionEncoding};
use tinymist_std::typst::TypstDocument;
use tinymist_world::args::TaskWhen;
use tinymist_world::vfs::WorkspaceResolver;
use typst::diag::{FileError, FileResult, Severity};
use typst::foundations::{Bytes, Datetime};
use typst::layout::PagedDocument;
use typst::syntax::{FileId, Source, VirtualPath};
use typst::utils::LazyHash;
use typst::{Library, World};
use typst_preview::{CompileStatus, CompileWatcher};

use crate::srv::{self, Srv};

pub const M: usize = 0;
pub const A: usize = 1;
pub const NAMES: [&str; 2] = ["m.typ", "a.typ"];
pub const PATHS: [&str; 2] = ["/w/m.typ", "/w/a.typ"];
const DISK: [&str; 2] = ["m\n#include a.typ", "a"];
const TEXTS: [[&str; 2]; 2] = [["#warn m warns\n#include a.typ", "#panic m fails"], ["#warn a warns\nb", "#panic a fails"]];

pub fn file(f: usize) -> FileId {
    WorkspaceResolver::workspace_file(Some(&Path::new("/w").into()), VirtualPath::new(NAMES[f]))
}

/// The files as they shall be.
pub struct Given {
    main: usize,
    texts: [String; 2],
    library: LazyHash<Library>,
    book: LazyHash<typst::text::FontBook>,
}
impl World for Given {
    fn library(&self) -> &LazyHash<Library> {
        &self.library
    }
    fn book(&self) -> &LazyHash<typst::text::FontBook> {
        &self.book
    }
    fn main(&self) -> FileId {
        file(self.main)
    }
    fn source(&self, id: FileId) -> FileResult<Source> {
        let f = (0..2).find(|f| file(*f) == id).ok_or(FileError::Other(None))?;
        Ok(Source::new(id, self.texts[f].clone()))
    }
    fn file(&self, id: FileId) -> FileResult<Bytes> {
        Ok(Bytes::from_string(self.source(id)?.text().to_string()))
    }
    fn font(&self, _: usize) -> Option<typst::text::Font> {
        None
    }
    fn today(&self, _: Option<i64>) -> Option<Datetime> {
        None
    }
}

type Diags = BTreeMap<String, Vec<(u64, String)>>;

/// What a project's document and diagnostics are.
pub fn compiled(texts: &[String; 2], main: usize) -> (Option<String>, Diags) {
    let w = Given { main, texts: texts.clone(), library: LazyHash::new(Library::builder().build()), book: LazyHash::new(Default::default()) };
    let res = typst::compile::<PagedDocument>(&w);
    let mut diags = Diags::new();
    let (doc, errors) = match res.output {
        Ok(d) => (Some(d.pages.iter().map(|p| p.text.as_str()).collect()), Default::default()),
        Err(e) => (None, e),
    };
    for d in res.warnings.iter().chain(errors.iter()) {
        let f = (0..2).find(|f| Some(file(*f)) == d.span.id()).unwrap_or(main);
        let uri = path_to_url(Path::new(PATHS[f])).unwrap().to_string();
        let severity = if d.severity == Severity::Error { 1 } else { 2 };
        diags.entry(uri).or_default().push((severity, d.message.to_string()));
    }
    (doc, diags)
}

pub fn text(d: &TypstDocument) -> String {
    match d {
        TypstDocument::Paged(d) => d.pages.iter().map(|p| p.text.as_str()).collect(),
        TypstDocument::Html(d) => d.text.clone(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Edit(usize, usize),
    Close(usize),
    Main(Option<usize>),
    Start(usize),
    Settle,
    Compile,
    Reload,
    /// The server handles one event.
    Pump,
    /// Everything else runs until it waits.
    Others,
    Drain,
}

struct Model {
    texts: [String; 2],
    main: Option<usize>,
    second: Option<usize>,
    watchers: BTreeMap<&'static str, Arc<CompileWatcher>>,
}

fn id(p: &str) -> ProjectInsId {
    ProjectInsId(p.into())
}

impl Model {
    fn run(&mut self, s: &mut Srv, op: Op) {
        match op {
            Op::Edit(f, t) => {
                self.texts[f] = TEXTS[f][t].into();
                s.state.create_source(Path::new(PATHS[f]).into(), self.texts[f].clone()).unwrap();
            }
            Op::Close(f) => {
                self.texts[f] = DISK[f].into();
                s.state.remove_source(Path::new(PATHS[f]).into()).unwrap();
            }
            Op::Main(e) => {
                self.main = e;
                s.state.change_main_file(e.map(|e| Path::new(PATHS[e]).into())).unwrap();
            }
            Op::Start(e) => {
                // As starting a preview of a file does.
                self.unwatch(s, "d");
                self.second = Some(e);
                let got = s.state.restart_dedicate("d", Some(Path::new(PATHS[e]).into())).unwrap();
                assert_eq!(got, id("d"));
                self.watch(s, "d");
                s.client.send_event(Interrupt::<tinymist_project::LspCompilerFeat>::Compile(id("d")));
            }
            Op::Settle => {
                self.unwatch(s, "d");
                self.second = None;
                s.state.project.interrupt(Interrupt::Settle(id("d")));
            }
            Op::Compile => s.state.project.interrupt(Interrupt::Compile(id("primary"))),
            Op::Reload => {
                // Previews are stopped.
                self.unwatch(s, "d");
                self.unwatch(s, "primary");
                self.second = None;
                s.state.reload_projects().unwrap();
            }
            Op::Pump => {
                s.pump();
            }
            Op::Others => s.others(),
            Op::Drain => s.drain(),
        }
    }
    fn watch(&mut self, s: &Srv, p: &'static str) {
        let w = Arc::new(CompileWatcher::default());
        assert!(s.state.project.preview.register(&id(p), &w));
        self.watchers.insert(p, w);
    }
    fn unwatch(&mut self, s: &Srv, p: &'static str) {
        if self.watchers.remove(p).is_some() {
            assert!(s.state.project.preview.unregister(&id(p)));
        }
    }

    fn check(&self, s: &mut Srv) -> Result<(), Fail> {
        let mut want = Diags::new();
        let projects: Vec<(&str, usize)> = self.main.map(|m| ("primary", m)).into_iter().chain(self.second.map(|m| ("d", m))).collect();
        for (p, main) in &projects {
            let (doc, diags) = compiled(&self.texts, *main);
            for (uri, ds) in diags {
                want.entry(uri).or_default().extend(ds);
            }
            let Some(proj) = s.state.project.compiler.projects().find(|x| x.id == id(p)) else {
                return Err(Fail::new("no-project", p.to_string()));
            };
            if proj.ext.is_compiling {
                return Err(Fail::new("compiles-forever", p.to_string()));
            }
            let got = proj.ext.last_compilation.as_ref().map(|a| a.doc.as_ref().map(text));
            if got.as_ref() != Some(&doc) {
                return Err(Fail::new("other-document", format!("{p} has {got:?}, not {doc:?}")));
            }
            if let Some(w) = self.watchers.get(p) {
                let shown = w.views.lock().unwrap().last().map(|v| v.shown());
                let wanted = doc.clone().unwrap_or("an error".into());
                if shown.as_ref() != Some(&wanted) {
                    return Err(Fail::new("other-preview", format!("{p} shows {shown:?}, not {wanted:?}")));
                }
                let status = w.statuses.lock().unwrap().last().copied();
                let wanted = if doc.is_some() { CompileStatus::CompileSuccess } else { CompileStatus::CompileError };
                if status != Some(wanted) {
                    return Err(Fail::new("other-preview-status", format!("{p} is {status:?}, not {wanted:?}")));
                }
            }
        }
        // What the client was told.
        let mut got = Diags::new();
        let mut status = Value::Null;
        for (method, v) in s.client.told.lock().unwrap().iter() {
            match *method {
                "textDocument/publishDiagnostics" => {
                    let ds = v["diagnostics"].as_array().unwrap();
                    let ds = ds.iter().map(|d| (d["severity"].as_u64().unwrap(), d["message"].as_str().unwrap().to_string()));
                    got.insert(v["uri"].as_str().unwrap().into(), ds.collect());
                }
                "tinymist/compileStatus" => status = v.clone(),
                m => return Err(Fail::new("other-message", m.to_string())),
            }
        }
        got.retain(|_, v| !v.is_empty());
        got.values_mut().for_each(|v| v.sort());
        want.values_mut().for_each(|v| v.sort());
        if got != want {
            return Err(Fail::new("other-diagnostics", format!("{got:?}, not {want:?}")));
        }
        let (path, state, pages) = match self.main {
            None => ("", "compileSuccess", 0),
            Some(m) => match compiled(&self.texts, m).0 {
                Some(_) => (["/m.typ", "/a.typ"][m], "compileSuccess", 1),
                None => (["/m.typ", "/a.typ"][m], "compileError", 0),
            },
        };
        let told = |k: &str| status[k].as_str().unwrap_or("").to_owned();
        if status != Value::Null && (told("path") != path || told("status") != state || status["pageCount"] != pages) {
            return Err(Fail::new("other-status", format!("{status}, not {state} of {path:?}")));
        }
        if status == Value::Null && self.main.is_some() {
            return Err(Fail::new("no-status", String::new()));
        }
        Ok(())
    }
}

fn history(ch: &mut Chooser, lint: bool, start: &'static [Op], ops: &'static [Op], len: usize) -> Result<(), Fail> {
    let mut steps = vec![];
    for _ in 0..len {
        steps.push(*ch.pick("step", ops));
    }
    let mut cfg = srv::config(PositionEncoding::Utf16);
    cfg.lint.0 = if lint { TaskWhen::OnType } else { TaskWhen::Never };
    let disk: Vec<(PathBuf, String)> = PATHS.iter().zip(DISK).map(|(p, t)| (p.into(), t.to_string())).collect();
    let told = format!("{start:?} {steps:?} {lint}");
    srv::run(ch, cfg, disk, move |s| {
        let mut m = Model { texts: DISK.map(Into::into), main: None, second: None, watchers: BTreeMap::new() };
        m.watch(s, "primary");
        for op in start.iter().chain(&steps) {
            rt::note(|| format!("{op:?}"));
            m.run(s, *op);
        }
        s.drain();
        m.check(s)?;
        let seen: BTreeSet<_> = s.client.told.lock().unwrap().iter().map(|(m, v)| format!("{m}{v}")).collect();
        Ok(format!("{seen:?}"))
    })
    .map_err(|f| Fail::new(&f.sig, format!("{told}: {}", f.msg)))
}

const EDITS: [Op; 9] = [
    Op::Edit(M, 0),
    Op::Edit(A, 0),
    Op::Edit(A, 1),
    Op::Close(A),
    Op::Main(Some(A)),
    Op::Main(None),
    Op::Compile,
    Op::Pump,
    Op::Others,
];
const SECOND: [Op; 9] = [
    Op::Start(A),
    Op::Start(M),
    Op::Settle,
    Op::Edit(M, 1),
    Op::Edit(A, 0),
    Op::Close(M),
    Op::Pump,
    Op::Others,
    Op::Drain,
];
const RELOADS: [Op; 9] = [
    Op::Reload,
    Op::Main(Some(A)),
    Op::Main(None),
    Op::Start(A),
    Op::Edit(A, 0),
    Op::Edit(M, 1),
    Op::Pump,
    Op::Others,
    Op::Drain,
];
const ALL: [Op; 11] = [
    Op::Edit(M, 0),
    Op::Edit(A, 0),
    Op::Edit(A, 1),
    Op::Close(A),
    Op::Main(Some(A)),
    Op::Main(None),
    Op::Start(A),
    Op::Settle,
    Op::Reload,
    Op::Others,
    Op::Drain,
];

pub fn at_rest(ctx: &mut Ctx) {
    let begin: &'static [Op] = &[Op::Main(Some(M)), Op::Drain];
    for (lint, n) in [(false, ""), (true, "-linted")] {
        let len = ctx.by(5, 6) - u32::from(lint) as usize;
        for (name, ops) in [("edits", &EDITS), ("second-project", &SECOND), ("reloads", &RELOADS)] {
            ctx.explore(
                &format!("{name}{n}"),
                "histories",
                &format!("every sequence of {len} of 9 steps: {ops:?}"),
                0,
                |ch| history(ch, lint, begin, ops, len),
            );
        }
        let len = ctx.by(2, 3);
        ctx.explore(
            &format!("schedules{n}"),
            "schedules",
            &format!("every sequence of {len} of 11 steps, with every point at which a compilation, a check or the editor's actor may come late"),
            1,
            |ch| history(ch, lint, begin, &ALL, len),
        );
    }
}
