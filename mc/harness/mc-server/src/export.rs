//! X01: exported files are the documents.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt;
use tinymist::project::{ExportPdfTask, ExportTask, Interrupt, LspInterrupt, PathPattern, ProjectInsId, ProjectTask};
use tinymist::task::ExportUserConfig;
use tinymist_project::MemDisk;
use tinymist_query::PositionEncoding;
use tinymist_world::args::TaskWhen;
use tinymist_world::vfs::notify::FilesystemEvent;
use tinymist_world::vfs::{Bytes, FileChangeSet};

use crate::rest::{compiled, A, M, PATHS};
use crate::srv::{self, Srv};

const DISK: [&str; 2] = ["m\n#include a.typ", "#title t\na"];
const TEXTS: [[&str; 2]; 2] = [["m2", "#panic m fails"], ["b", "#title u\n#warn a warns\nc"]];

/// A directory of this execution.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let d = PathBuf::from(format!("/dev/shm/mc-export-{}-{n}", std::process::id()));
        std::fs::create_dir(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).unwrap();
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Edit(usize, usize),
    /// The buffer is written to the disk.
    Save(usize),
    Main(usize),
    Start(usize),
    Settle,
    Compile,
    Reload,
    Pump,
    Others,
    Drain,
}

fn id(p: &str) -> ProjectInsId {
    ProjectInsId(p.into())
}

/// What a project's document was after each step, since its entry was set.
struct Past {
    main: usize,
    docs: Vec<Option<String>>,
    /// The texts at these steps, of files that were read from the disk then.
    unread: Vec<[Option<String>; 2]>,
    /// What else it may have been: a compilation reads files while they change.
    mixed: Vec<(usize, String)>,
    /// The last step that asked for an export.
    asked: usize,
    /// The last step that asked for an export when all work was done. Requests may be folded
    /// into the next compilation, which may fail; those aren't owed.
    owed: Option<usize>,
}

struct Model {
    when: TaskWhen,
    texts: [String; 2],
    open: [bool; 2],
    disk: [String; 2],
    projects: BTreeMap<&'static str, Past>,
}

impl Model {
    fn disk(&self) -> impl Iterator<Item = (PathBuf, String)> + '_ {
        PATHS.iter().zip(&self.disk).map(|(p, t)| (p.into(), t.clone()))
    }
    fn unread(&self) -> [Option<String>; 2] {
        // Whether or not the buffer of the other file is open makes no difference.
        [None, Some(self.texts[M].clone()).filter(|_| !self.open[A])]
    }
    fn entry(&mut self, p: &'static str, main: usize) {
        let docs = vec![compiled(&self.texts, main).0];
        let unread = vec![self.unread()];
        self.projects.insert(p, Past { main, docs, unread, mixed: vec![], asked: 0, owed: None });
    }
    /// A file was edited or saved.
    fn changed(&mut self, by_memory: bool, file: usize) {
        let unread = self.unread();
        for p in self.projects.values_mut() {
            p.unread.push(unread.clone());
            p.docs.push(compiled(&self.texts, p.main).0);
            if p.main != file && !self.texts[p.main].contains("#include") {
                continue;
            }
            let asks = match self.when {
                TaskWhen::Never => false,
                TaskWhen::OnType => by_memory,
                TaskWhen::OnSave => !by_memory,
                // Both texts of a document have titles, or none.
                TaskWhen::OnDocumentHasTitle => false,
            };
            if asks {
                p.asked = p.docs.len() - 1;
            }
        }
    }
    fn run(&mut self, s: &mut Srv, op: Op) {
        match op {
            Op::Edit(f, t) => {
                self.texts[f] = TEXTS[f][t].into();
                self.open[f] = true;
                s.state.create_source(Path::new(PATHS[f]).into(), self.texts[f].clone()).unwrap();
                self.changed(true, f);
            }
            Op::Save(f) => {
                self.disk[f] = self.texts[f].clone();
                for p in self.projects.values_mut() {
                    for (i, main) in p.unread.iter().enumerate() {
                        let Some(main) = &main[f] else { continue };
                        p.mixed.extend(compiled(&[main.clone(), self.disk[f].clone()], p.main).0.map(|d| (i, d)));
                    }
                }
                MemDisk::set(self.disk());
                let bytes = Bytes::from_string(self.texts[f].clone());
                let set = FileChangeSet::new_inserts(vec![(Path::new(PATHS[f]).into(), Ok(bytes).into())]);
                s.state.project.interrupt(LspInterrupt::Fs(FilesystemEvent::Update(set)));
                self.changed(false, f);
            }
            Op::Main(e) => {
                s.state.change_main_file(Some(Path::new(PATHS[e]).into())).unwrap();
                self.entry("primary", e);
            }
            Op::Start(e) => {
                s.state.restart_dedicate("d", Some(Path::new(PATHS[e]).into())).unwrap();
                s.client.send_event(Interrupt::<tinymist_project::LspCompilerFeat>::Compile(id("d")));
                self.entry("d", e);
            }
            Op::Settle => {
                s.state.project.interrupt(Interrupt::Settle(id("d")));
                self.projects.remove("d");
            }
            Op::Compile => {
                s.state.project.interrupt(Interrupt::Compile(id("primary")));
                if let Some(p) = self.projects.get_mut("primary") {
                    p.asked = p.docs.len() - 1;
                }
            }
            Op::Reload => {
                s.state.reload_projects().unwrap();
                self.projects.remove("d");
                if let Some(p) = self.projects.get("primary") {
                    self.entry("primary", p.main);
                }
            }
            Op::Pump => {
                s.pump();
            }
            Op::Others => s.others(),
            Op::Drain => {
                s.drain();
                for p in self.projects.values_mut() {
                    if p.docs[p.asked..].iter().all(Option::is_some) {
                        p.owed = Some(p.asked);
                    }
                }
            }
        }
    }

    fn check(&self, s: &Srv, dir: &Path) -> Result<(), Fail> {
        if self.when == TaskWhen::Never {
            if std::fs::read_dir(dir).unwrap().next().is_some() {
                return Err(Fail::new("exported-never", String::new()));
            }
        } else {
            for (p, past) in &self.projects {
                // Another project of the same file may have exported it, too.
                let shared = self.projects.values().filter(|o| o.main == past.main).count() > 1;
                if shared && self.when != TaskWhen::OnType {
                    continue;
                }
                let Some(owed) = past.owed else { continue };
                let file = dir.join(["m.pdf", "a.pdf"][past.main]);
                let got = std::fs::read_to_string(&file).ok();
                let mixed = || past.mixed.iter().any(|(i, d)| *i >= owed && got.as_ref() == Some(d));
                if got.is_none() || !past.docs[owed..].contains(&got) && !mixed() {
                    return Err(Fail::new("other-export", format!("{p} exported {got:?}, not one of {:?}", &past.docs[owed..])));
                }
            }
        }
        if let Some(Some(doc)) = self.projects.get("primary").map(|p| p.docs.last().unwrap()) {
            let told = s.client.told.lock().unwrap();
            let last = told.iter().rev().find(|(m, _)| *m == "tinymist/compileStatus").map(|(_, v)| v["wordsCount"]["words"].clone());
            if last != Some(doc.len().into()) {
                return Err(Fail::new("other-count", format!("{last:?} words, not {}", doc.len())));
            }
        }
        Ok(())
    }
}

fn history(ch: &mut Chooser, when: TaskWhen, ops: &'static [Op], len: usize) -> Result<(), Fail> {
    let mut steps = vec![];
    for _ in 0..len {
        steps.push(*ch.pick("step", ops));
    }
    let dir = Dir::new();
    let mut cfg = srv::config(PositionEncoding::Utf16);
    let output = PathPattern::new(&format!("{}/$name", dir.0.display()));
    cfg.export = ExportUserConfig {
        task: ProjectTask::ExportPdf(ExportPdfTask {
            export: ExportTask { when, output: Some(output), transform: vec![] },
            pdf_standards: vec![],
            creation_timestamp: None,
        }),
        count_words: true,
        ..Default::default()
    };
    let told = format!("{steps:?} {when:?}");
    let d = dir.0.clone();
    let disk: Vec<(PathBuf, String)> = PATHS.iter().zip(DISK).map(|(p, t)| (p.into(), t.to_string())).collect();
    srv::run(ch, cfg, disk, move |s| {
        let mut m = Model { when, open: [false; 2], texts: DISK.map(Into::into), disk: DISK.map(Into::into), projects: BTreeMap::new() };
        m.run(s, Op::Main(M));
        m.run(s, Op::Drain);
        for op in steps {
            rt::note(|| format!("{op:?}"));
            m.run(s, op);
        }
        m.run(s, Op::Drain);
        m.check(s, &d)?;
        let mut seen = vec![];
        for f in ["m.pdf", "a.pdf"] {
            seen.push(std::fs::read_to_string(d.join(f)).ok());
        }
        Ok(format!("{seen:?}"))
    })
    .map_err(|f| Fail::new(&f.sig, format!("{told}: {}", f.msg.replace(&*dir.0.to_string_lossy(), "DIR"))))
}

const OPS: [Op; 12] = [
    Op::Edit(M, 0),
    Op::Edit(A, 0),
    Op::Edit(M, 1),
    Op::Edit(A, 1),
    Op::Save(A),
    Op::Main(A),
    Op::Start(A),
    Op::Settle,
    Op::Compile,
    Op::Reload,
    Op::Others,
    Op::Drain,
];
const FEW: [Op; 9] =
    [Op::Edit(M, 0), Op::Edit(A, 0), Op::Save(A), Op::Main(A), Op::Start(A), Op::Compile, Op::Reload, Op::Others, Op::Drain];

pub fn exports(ctx: &mut Ctx) {
    for (when, name, cut) in [
        (TaskWhen::OnType, "on-type", 0),
        (TaskWhen::OnSave, "on-save", 0),
        (TaskWhen::OnDocumentHasTitle, "with-title", 1),
        (TaskWhen::Never, "never", 1),
    ] {
        let len = ctx.by(4, 5) - cut;
        ctx.explore(
            name,
            "histories",
            &format!("every sequence of {len} of 12 edits, saves, changes of main files, previews and pauses"),
            0,
            |ch| history(ch, when, &OPS, len),
        );
    }
    for (when, name) in [(TaskWhen::OnType, "on-type-schedules"), (TaskWhen::OnSave, "on-save-schedules")] {
        let len = ctx.by(2, 3);
        ctx.explore(
            name,
            "schedules",
            &format!("every sequence of {len} of 9 steps with every point at which a compilation, an export or a count of words may come late"),
            1,
            |ch| history(ch, when, &FEW, len),
        );
    }
}
