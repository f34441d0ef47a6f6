//! V02: file ids and paths.

use std::path::{Path, PathBuf};

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use tinymist_vfs::{FileId, ImmutPath, PathResolution, RootResolver, WorkspaceResolver};
use tinymist_world::{EntryReader, EntryState};
use typst::syntax::package::PackageSpec;
use typst::syntax::VirtualPath;

use crate::view::Roots;

struct Entry(EntryState);
impl EntryReader for Entry {
    fn entry_state(&self) -> EntryState {
        self.0.clone()
    }
}

/// Roots as callers give them, and the directories they are.
const ROOTS: [(&str, &str); 9] = [
    ("/w", "/w"),
    ("/w/", "/w"),
    ("/w/x/..", "/w"),
    ("/w/./x", "/w/x"),
    ("/w/x", "/w/x"),
    ("/", "/"),
    ("/w/../v", "/v"),
    ("/wx", "/wx"),
    ("/ä ö", "/ä ö"),
];
/// Paths in a root, and where they lead: outside is `None`.
const PATHS: [(&str, Option<&str>); 8] = [
    ("/a.typ", Some("a.typ")),
    ("a.typ", Some("a.typ")),
    ("/x/b.typ", Some("x/b.typ")),
    ("/x/../a.typ", Some("a.typ")),
    ("/./x//b.typ", Some("x/b.typ")),
    ("/../a.typ", None),
    ("/x/../../w/a.typ", None),
    ("/ü.typ", Some("ü.typ")),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Made {
    File,
    Untitled,
    Rootless,
    Package,
    Parent,
}

struct Given {
    how: Made,
    id: FileId,
    /// The root and the normal form of the path inside it.
    root: Option<PathBuf>,
    vpath: VirtualPath,
    want: Option<PathBuf>,
}

fn root_of(r: &str) -> ImmutPath {
    Path::new(r).into()
}

fn make(how: Made, root: (&str, &str), path: (&str, Option<&str>)) -> Option<Given> {
    let vpath = VirtualPath::new(path.0);
    let clean = Path::new(root.1);
    let want = |base: &Path| path.1.map(|p| base.join(p));
    Some(match how {
        Made::File => Given {
            how,
            id: WorkspaceResolver::workspace_file(Some(&root_of(root.0)), vpath.clone()),
            root: Some(clean.into()),
            vpath,
            want: want(clean),
        },
        Made::Untitled => Given {
            how,
            id: WorkspaceResolver::rooted_untitled(Some(&root_of(root.0)), vpath.clone()),
            root: Some(clean.into()),
            vpath,
            want: None,
        },
        Made::Rootless => Given {
            how,
            id: WorkspaceResolver::rootless_file(vpath.clone()),
            root: None,
            vpath,
            want: None,
        },
        Made::Package => {
            let spec: PackageSpec = "@preview/p:0.1.0".parse().unwrap();
            Given {
                how,
                id: FileId::new(Some(spec), vpath.clone()),
                root: Some("/pkg/p".into()),
                vpath,
                want: want(Path::new("/pkg/p")),
            }
        }
        Made::Parent => {
            let full = Path::new(root.0).join("q.typ");
            Given {
                how,
                id: WorkspaceResolver::file_with_parent_root(&full)?,
                root: Some(clean.into()),
                vpath: VirtualPath::new("q.typ"),
                want: Some(clean.join("q.typ")),
            }
        }
    })
}

fn check(g: &Given) -> Result<(), Fail> {
    let about = || format!("{:?} {:?} {:?}", g.how, g.root, g.vpath);
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{}: {m}", about())));
    let res = Roots.path_for_id(g.id);
    match g.how {
        Made::File | Made::Package | Made::Parent => match (&res, &g.want) {
            (Ok(PathResolution::Resolved(p)), Some(w)) if p == w => {}
            (Err(_), None) => {}
            // Nothing is outside of `/`.
            (Ok(PathResolution::Resolved(_)), None) if g.root.as_deref() == Some(Path::new("/")) => {}
            _ => return bad("another path", format!("{res:?} instead of {:?}", g.want)),
        },
        Made::Untitled | Made::Rootless => match res {
            Ok(PathResolution::Rootless(v)) if *v == g.vpath => {
                if PathResolution::Rootless(v).to_err().is_ok() {
                    return bad("a file without a path has one", String::new());
                }
            }
            r => return bad("a file without a path has one", format!("{r:?}")),
        },
    }
    let root = Roots.resolve_root(g.id);
    let root = match root {
        Ok(r) => r.map(|r| r.to_path_buf()),
        Err(e) => return bad("the root is lost", format!("{e:?}")),
    };
    if root != g.root {
        return bad("another root", format!("{root:?}"));
    }
    let shown = format!("{:?}", WorkspaceResolver::display(Some(g.id)));
    if let (Made::File | Made::Parent, Some(w)) = (g.how, &g.want) {
        if Path::new(&shown) != w {
            return bad("shown as another file", shown);
        }
    }
    if WorkspaceResolver::is_workspace_file(g.id) != matches!(g.how, Made::File | Made::Parent | Made::Untitled)
        || WorkspaceResolver::is_package_file(g.id) != (g.how == Made::Package)
    {
        return bad("another kind of file", String::new());
    }
    Ok(())
}

fn distinct(all: &[Given]) -> Result<(), Fail> {
    for (n, a) in all.iter().enumerate() {
        for b in &all[..n] {
            let class = |m: Made| if m == Made::Parent { Made::File } else { m };
            let same = class(a.how) == class(b.how) && a.root == b.root && a.vpath == b.vpath;
            if (a.id == b.id) != same {
                return Err(Fail::new(
                    if same { "one file has two ids" } else { "two files have one id" },
                    format!("{:?} {:?} {:?} and {:?} {:?} {:?}", a.how, a.root, a.vpath, b.how, b.root, b.vpath),
                ));
            }
        }
    }
    Ok(())
}

fn fresh() {
    mcstdt::reset_statics();
    typst::syntax::reset_file_ids();
}

/// Any sequence of ids made for files.
fn ids(ch: &mut Chooser, len: usize) -> Result<(), Fail> {
    fresh();
    let mut all = vec![];
    for _ in 0..len {
        let how = *ch.pick("made", &[Made::File, Made::Untitled, Made::Package, Made::Rootless, Made::Parent]);
        let root = match how {
            Made::Rootless | Made::Package => ROOTS[0],
            _ => *ch.pick("root", &ROOTS),
        };
        let path = if how == Made::Parent { PATHS[0] } else { *ch.pick("path", &PATHS) };
        ch.note(|| format!("{how:?} {root:?} {path:?}"));
        all.extend(make(how, root, path));
        for g in &all {
            check(g)?;
        }
        distinct(&all)?;
    }
    ch.observe(all.iter().map(|g| format!("{:?}", g.id)).collect::<Vec<_>>());
    Ok(())
}

/// Documents name packages, and a name may look like a workspace.
fn strangers(ch: &mut Chooser) -> Result<(), Fail> {
    fresh();
    let known = ch.choose("workspaces", 3);
    for r in &["/w", "/v"][..known] {
        WorkspaceResolver::workspace_id(&root_of(r));
    }
    let name = *ch.pick("name", &["p0", "p1", "p2", "p9", "p65535", "p65536", "p", "x", "p-1", "p+1", "pé", "p01", "é"]);
    let version = *ch.pick("version", &["0.0.0", "0.0.1", "1.2.3"]);
    let ns = *ch.pick("namespace", &["ws", "preview", "local"]);
    let spec = PackageSpec {
        namespace: ns.into(),
        name: name.into(),
        version: typst::syntax::package::PackageVersion {
            major: version[..1].parse().unwrap(),
            minor: version[2..3].parse().unwrap(),
            patch: version[4..5].parse().unwrap(),
        },
    };
    let id = FileId::new(Some(spec), VirtualPath::new("/typst.toml"));
    let what = format!("@{ns}/{name}:{version} with {known} workspaces");
    let got = std::panic::catch_unwind(|| {
        let _ = format!("{:?}", WorkspaceResolver::display(Some(id)));
        let _ = Roots.resolve_root(id);
        Roots.path_for_id(id)
    });
    match got {
        Err(_) => Err(Fail::new("a name brings the server down", what)),
        Ok(Ok(PathResolution::Resolved(p))) => {
            let inside = match ns {
                "ws" => ["/w", "/v"][..known].iter().any(|r| p.starts_with(r)),
                _ => p.starts_with(Path::new("/pkg").join(name)),
            };
            ch.observe((&what, &p));
            if !inside {
                return Err(Fail::new("outside every root", format!("{what}: {p:?}")));
            }
            Ok(())
        }
        Ok(r) => {
            ch.observe((&what, format!("{r:?}")));
            Ok(())
        }
    }
}

/// Entries selected in workspaces.
fn entries(ch: &mut Chooser) -> Result<(), Fail> {
    fresh();
    let root = *ch.pick("root", &ROOTS);
    let clean = Path::new(root.1);
    let start = ch.choose("from", 6);
    let state = match start {
        0 => EntryState::new_detached(),
        1 => EntryState::new_workspace(root_of(root.0)),
        2 => EntryState::new_rooted(root_of(root.0), Some(VirtualPath::new("/old.typ"))),
        3 => EntryState::new_rootless(VirtualPath::new("/old.typ")),
        4 => match EntryState::new_rooted_by_parent(root_of(&format!("{}/old.typ", root.0))) {
            Some(s) => s,
            None => return Err(Fail::new("no entry", root.0.to_string())),
        },
        _ => EntryState::new_rooted_by_id(root_of(root.0), WorkspaceResolver::workspace_file(None, VirtualPath::new("/old.typ"))),
    };
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{root:?} from {start}: {m}")));
    let path = |s: &EntryState| s.main().map(|id| Roots.path_for_id(id));
    let rooted = matches!(start, 1 | 2 | 4 | 5);
    let active = start != 0 && start != 1;
    if state.is_inactive() == active || state.is_detached() != (start == 0) || state.is_in_package() {
        return bad("another state", format!("{state:?}"));
    }
    if state.workspace_root().map(|p| p.to_path_buf()) != rooted.then(|| clean.to_path_buf())
        // Without a main file the root is what the caller gave.
        && !(start == 1 && state.workspace_root().as_deref() == Some(Path::new(root.0)))
    {
        return bad("another root", format!("{:?}", state.workspace_root()));
    }
    match path(&state) {
        None if !active => {}
        Some(Ok(PathResolution::Resolved(p))) if rooted && p == clean.join("old.typ") => {}
        Some(Ok(PathResolution::Rootless(_))) if start == 3 => {}
        p => return bad("another main file", format!("{p:?}")),
    }
    if EntryReader::main_id(&Entry(state.clone())) != state.main() {
        return bad("another main file", String::new());
    }
    // Selects another file.
    let to = *ch.pick("to", &["new.typ", "x/new.typ", "new.typ/"]);
    let sel = state.select_in_workspace(Path::new(to));
    match path(&sel) {
        Some(Ok(PathResolution::Resolved(p))) if rooted && p == clean.join(to) => {}
        Some(Ok(PathResolution::Rootless(_))) if !rooted => {}
        p => return bad("selects another file", format!("{to}: {p:?}")),
    }
    if sel.root() != state.root() || sel.is_inactive() {
        return bad("selecting moves the root", format!("{:?}", sel.root()));
    }
    let where_ = ch.choose("inside", 3);
    let ws = state.workspace_root();
    let base = match where_ {
        0 => ws.as_deref().unwrap_or(clean).to_path_buf(),
        1 => PathBuf::from("/elsewhere"),
        // Only looks as if it were inside.
        _ => PathBuf::from(format!("{}beside", ws.as_deref().unwrap_or(clean).display())),
    };
    let full = base.join(to);
    let inside = ws.as_ref().is_some_and(|w| full.starts_with(w));
    match state.try_select_path_in_workspace(&full) {
        Ok(Some(s)) if ws.is_some() => {
            if !inside {
                return bad("a file outside the workspace is selected", format!("{full:?}"));
            }
            match path(&s) {
                Some(Ok(PathResolution::Resolved(p))) if p == clean.join(full.strip_prefix(ws.unwrap()).unwrap()) => {}
                p => return bad("selects another file", format!("{full:?}: {p:?}")),
            }
            if s.workspace_root().as_deref() != Some(clean) {
                return bad("selecting moves the root", format!("{:?}", s.workspace_root()));
            }
        }
        Ok(Some(s)) => match path(&s) {
            Some(Ok(PathResolution::Resolved(p))) => {
                let parent = full.parent().unwrap();
                if s.root().as_deref() != Some(parent) || p.file_name() != full.file_name() {
                    return bad("selects another file", format!("{full:?}: {p:?}"));
                }
            }
            p => return bad("selects another file", format!("{full:?}: {p:?}")),
        },
        Ok(None) => return bad("selects nothing", format!("{full:?}")),
        Err(_) if ws.is_some() && !inside => {}
        Err(e) => return bad("a file in the workspace is not selected", format!("{full:?}: {e}")),
    }
    ch.observe((root, start, to, where_));
    Ok(())
}

/// Threads that make ids at the same time.
fn threads(ch: &mut Chooser) -> Result<(), Fail> {
    let n = 2 + ch.choose("threads", 2);
    // Spellings of two roots.
    let progs: Vec<Vec<usize>> = (0..n)
        .map(|_| (0..4 - n).map(|_| *ch.pick("root", &[0, 2, 3])).collect())
        .collect();
    let p2 = progs.clone();
    let res = rt::run(ch, rt::Opts::default(), move || -> Result<Vec<String>, Fail> {
        fresh();
        // Whoever is first makes the interner.
        let joins: Vec<_> = p2
            .into_iter()
            .enumerate()
            .map(|(t, p)| {
                rt::spawn(format!("t{t}"), move || -> Result<Vec<(usize, FileId)>, Fail> {
                    let mut out = vec![];
                    for r in p {
                        let g = make(Made::File, ROOTS[r], PATHS[0]).unwrap();
                        let got = Roots.path_for_id(g.id);
                        if !matches!(&got, Ok(PathResolution::Resolved(p)) if Some(p) == g.want.as_ref()) {
                            return Err(Fail::new("another path", format!("{:?}: {got:?}", ROOTS[r])));
                        }
                        out.push((r, g.id));
                    }
                    Ok(out)
                })
            })
            .collect();
        let mut all = vec![];
        for j in joins {
            all.extend(j.join().map_err(|_| Fail::new("a thread panics", String::new()))??);
        }
        for (r, id) in &all {
            let g = make(Made::File, ROOTS[*r], PATHS[0]).unwrap();
            check(&g)?;
            check(&Given { id: *id, ..g })?;
            for (r2, id2) in &all {
                if (id == id2) != (ROOTS[*r].1 == ROOTS[*r2].1) {
                    return Err(Fail::new(
                        if id == id2 { "two files have one id" } else { "one file has two ids" },
                        format!("{:?} and {:?}", ROOTS[*r], ROOTS[*r2]),
                    ));
                }
            }
        }
        Ok(all.iter().map(|(r, id)| format!("{r} {id:?}")).collect())
    });
    match (res.end, res.value) {
        (End::Done { .. }, Some(Ok(o))) => {
            ch.observe(o);
            Ok(())
        }
        (_, Some(Err(f))) => Err(Fail::new(&f.sig, format!("{progs:?}: {}", f.msg))),
        (e, _) => Err(Fail::new("does not end well", format!("{progs:?}: {e:?} {:?}", res.panics))),
    }
}

pub fn resolve(ctx: &mut Ctx) {
    let len = ctx.by(2, 3);
    ctx.explore(
        "ids-sequences",
        "histories",
        "every sequence of ids for files in nine spellings of six roots, untitled files, files of packages and files without a root",
        0,
        |ch| ids(ch, len),
    );
    ctx.explore(
        "ids-strange-names",
        "histories",
        "every package name that looks like a workspace, with none to two workspaces known",
        0,
        strangers,
    );
    ctx.explore(
        "ids-entries",
        "histories",
        "every kind of entry in every root, with files inside, outside and beside the workspace selected",
        0,
        entries,
    );
    ctx.explore(
        "ids-threads",
        "schedules",
        "two or three threads that make ids for files in the same and in other roots",
        ctx.by(2, 3),
        threads,
    );
}
