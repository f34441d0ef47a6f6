//! K02: where packages come from, over histories of calls and of what others
//! do to the directories.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::rc::Rc;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use reqwest::Answer;
use tinymist_package::registry::{HttpRegistry, PackageStorage, DEFAULT_REGISTRY};
use tinymist_package::{PackageError, PackageRegistry, PackageSpec};
use typst::syntax::package::VersionlessPackageSpec;

use crate::store::{archive, flaw, spec, storage, Served, FILES};
use crate::world::fresh;

type V = (u32, u32, u32);
type Name = (&'static str, &'static str, V);

const P1: Name = ("preview", "p", (1, 0, 0));
const P9: Name = ("preview", "p", (0, 9, 0));
const L1: Name = ("local", "p", (1, 0, 0));
const L9: Name = ("local", "p", (0, 9, 0));
const L10: Name = ("local", "p", (0, 10, 0));

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Prepare(Name),
    PutData(Name),
    PutCache(Name),
    DropData(Name),
    DropCache(Name),
    /// Something that is no version beside the versions.
    Junk,
    Latest(&'static str),
    Index,
}
use Op::*;

const OPS: &[Op] = &[
    Prepare(P1),
    Prepare(L1),
    Prepare(P9),
    PutData(P1),
    PutData(L9),
    PutData(L10),
    PutCache(P1),
    PutCache(L1),
    DropData(P1),
    DropCache(P1),
    Junk,
    Latest("preview"),
    Latest("local"),
    Index,
];

/// What the index says.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum List {
    Good,
    Empty,
    Malformed,
    Failed,
    Unreachable,
}
const LISTS: &[List] = &[List::Good, List::Empty, List::Malformed, List::Failed, List::Unreachable];
const INDEX: &[(&str, V, Option<&str>)] = &[("p", (0, 9, 0), None), ("p", (0, 10, 0), Some("ten")), ("q", (2, 0, 0), None), ("p", (0, 2, 11), Some(""))];

impl List {
    fn answer(self) -> Answer {
        let ok = |s: String| Answer::Body(200, s.into_bytes(), false);
        match self {
            List::Good => ok(format!(
                "[{}]",
                INDEX
                    .iter()
                    .map(|(n, v, d)| format!(
                        r#"{{"name":"{n}","version":"{}.{}.{}","entrypoint":"lib.typ"{}}}"#,
                        v.0,
                        v.1,
                        v.2,
                        d.map_or(String::new(), |d| format!(r#","description":"{d}""#))
                    ))
                    .collect::<Vec<_>>()
                    .join(",")
            )),
            List::Empty => ok("[]".into()),
            List::Malformed => ok(r#"[{"name":"p""#.into()),
            List::Failed => Answer::Body(500, vec![], false),
            List::Unreachable => Answer::Unreachable,
        }
    }
    fn entries(self) -> Vec<(PackageSpec, Option<String>)> {
        match self {
            List::Good => INDEX.iter().map(|(n, v, d)| (spec("preview", n, *v), d.map(String::from))).collect(),
            _ => vec![],
        }
    }
}

fn at(base: &Path, n: Name) -> PathBuf {
    base.join(format!("{}/{}/{}.{}.{}", n.0, n.1, n.2 .0, n.2 .1, n.2 .2))
}

fn of(n: Name) -> PackageSpec {
    spec(n.0, n.1, n.2)
}

/// The store of a caller, by either of its names.
enum Store {
    Plain(PackageStorage),
    Registry(HttpRegistry),
}
impl Store {
    fn get(&self) -> &PackageStorage {
        match self {
            Store::Plain(s) => s,
            Store::Registry(r) => r.storage(),
        }
    }
}

fn history(ch: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let dir = fresh();
    let (cache, data) = (dir.join("cache"), dir.join("data"));
    let (has_cache, has_data) = [(true, true), (true, false), (false, true), (false, false)][ch.choose("directories", 4)];
    let some = |b: bool, p: &Path| b.then(|| p.to_path_buf());
    let mut st = Store::Plain(storage(some(has_cache, &cache), some(has_data, &data)));
    if has_cache && has_data && ch.choose("by registry", 2) == 1 {
        st = Store::Registry(HttpRegistry::new(None, Some(data.clone().into()), Some(cache.clone().into())));
    }
    let next: Rc<RefCell<(Served, List)>> = Rc::new(RefCell::new((Served::Unreachable, List::Unreachable)));
    let asked: Rc<RefCell<Vec<String>>> = Rc::default();
    let (n2, a2) = (next.clone(), asked.clone());
    reqwest::serve(move |url| {
        a2.borrow_mut().push(url.into());
        if url.ends_with(".json") {
            n2.borrow().1.answer()
        } else {
            n2.borrow().0.answer()
        }
    });

    let (mut in_data, mut in_cache): (BTreeSet<Name>, BTreeSet<Name>) = Default::default();
    // What the index is known to be, and whether it was got.
    let mut index: Option<List> = None;
    let put = |p: PathBuf| {
        for (f, c) in FILES {
            std::fs::create_dir_all(&p).unwrap();
            std::fs::write(p.join(f), c).unwrap();
        }
    };
    let mut done: Vec<String> = vec![];
    for _ in 0..depth {
        let op = *ch.pick("operation", OPS);
        asked.borrow_mut().clear();
        let mut what = format!("{op:?}");
        let mut bad: Option<(&str, String)> = None;
        match op {
            PutData(n) => {
                put(at(&data, n));
                in_data.insert(n);
            }
            PutCache(n) => {
                put(at(&cache, n));
                in_cache.insert(n);
            }
            DropData(n) => {
                let _ = std::fs::remove_dir_all(at(&data, n));
                in_data.remove(&n);
            }
            DropCache(n) => {
                let _ = std::fs::remove_dir_all(at(&cache, n));
                in_cache.remove(&n);
            }
            Junk => {
                let d = data.join("local/p");
                for j in [".tmp-9.9.9-1-1", "draft", "1.0", "9.9.9.9"] {
                    std::fs::create_dir_all(d.join(j)).unwrap();
                }
            }
            Prepare(n) => {
                let here = has_data && in_data.contains(&n);
                let there = has_cache && in_cache.contains(&n);
                let ask = !here && !there && has_cache && n.0 == "preview";
                if ask {
                    next.borrow_mut().0 = *ch.pick("served", &[Served::Good, Served::Missing, Served::Unreachable, Served::Rubbish]);
                    what += &format!(" {:?}", next.borrow().0);
                }
                let served = next.borrow().0;
                let r = match &st {
                    Store::Plain(s) => s.prepare_package(&of(n)),
                    Store::Registry(r) => r.resolve(&of(n)),
                };
                let want: Result<PathBuf, ()> = if here {
                    Ok(at(&data, n))
                } else if there || ask && served == Served::Good {
                    Ok(at(&cache, n))
                } else {
                    Err(())
                };
                what += &format!(" -> {}", r.as_ref().map_or_else(|e| format!("{e:?}"), |p| crate::sys::shown(p)));
                match (&r, &want) {
                    (Ok(p), Ok(w)) if **p == **w => {
                        if let Some(f) = flaw(p) {
                            bad = Some(("an incomplete package is handed out", f));
                        }
                    }
                    (Err(e), Err(())) => {
                        let right = if ask { served.explains(e, &of(n)) } else { matches!(e, PackageError::NotFound(s) if *s == of(n)) };
                        if !right {
                            bad = Some(("the wrong error is reported", what.clone()));
                        }
                    }
                    _ => bad = Some(("a package comes from the wrong place", format!("not {}", want.as_ref().map_or("an error".into(), |p| crate::sys::shown(p))))),
                }
                if r.is_ok() && ask {
                    in_cache.insert(n);
                }
                let urls: Vec<String> = if ask { vec![format!("{DEFAULT_REGISTRY}/preview/{}-{}.{}.{}.tar.gz", n.1, n.2 .0, n.2 .1, n.2 .2)] } else { vec![] };
                if *asked.borrow() != urls {
                    bad = Some(("the server is asked for the wrong things", format!("{:?}, not {urls:?}", asked.borrow())));
                }
            }
            Latest(_) | Index => {
                let remote = op != Latest("local");
                let old = index;
                // A list that could not be got may be tried again, or not.
                let failed = |l: List| !matches!(l, List::Good | List::Empty);
                if remote && index.is_none_or(failed) {
                    next.borrow_mut().1 = *ch.pick("list", LISTS);
                    what += &format!(" {:?}", next.borrow().1);
                }
                let (got, entries) = match op {
                    Latest(ns) => (Some(st.get().determine_latest_version(&VersionlessPackageSpec { namespace: ns.into(), name: "p".into() })), None),
                    _ => {
                        let e = match &st {
                            Store::Plain(s) => s.download_index(),
                            Store::Registry(r) => r.packages(),
                        };
                        (None, Some(e.to_vec()))
                    }
                };
                let times = asked.borrow().len();
                if remote {
                    if times > 0 {
                        index = Some(next.borrow().1);
                    }
                    let allowed = match old {
                        None => times == 1,
                        Some(l) if failed(l) => times <= 1,
                        Some(_) => times == 0,
                    };
                    if !allowed || asked.borrow().iter().any(|u| *u != format!("{DEFAULT_REGISTRY}/preview/index.json")) {
                        bad = Some(("the server is asked for the wrong things", format!("{:?}", asked.borrow())));
                    }
                } else if times != 0 {
                    bad = Some(("the server is asked for the wrong things", format!("{:?}", asked.borrow())));
                }
                let known = index.unwrap_or(List::Empty).entries();
                if let Some(e) = entries {
                    let e: Vec<_> = e.into_iter().map(|(s, d)| (s, d.map(|d| d.to_string()))).collect();
                    what += &format!(" -> {} entries", e.len());
                    if e != known {
                        bad = Some(("the list is not the served one", format!("{e:?}, not {known:?}")));
                    }
                }
                if let Some(v) = got {
                    let want = if remote {
                        known.iter().filter(|e| e.0.name == "p").map(|e| e.0.version).max()
                    } else if has_data {
                        in_data.iter().filter(|n| n.0 == "local").map(|n| of(*n).version).max()
                    } else {
                        None
                    };
                    what += &format!(" -> {v:?}");
                    if v.as_ref().ok() != want.as_ref() {
                        bad = Some(("the latest version is another one", format!("not {want:?}")));
                    }
                }
            }
        }
        done.push(what);
        ch.observe(done.last().unwrap());
        if let Some((sig, m)) = bad {
            return Err(Fail::new(sig, format!("cache {has_cache}, data {has_data}, {done:?}: {m}")));
        }
    }
    Ok(())
}

pub fn lookup(ctx: &mut Ctx) {
    let _ = archive(FILES);
    let depth = ctx.by(3, 4);
    ctx.explore(
        "histories",
        "histories",
        &format!("{depth} of {} operations (preparing packages, what others put into or take from the directories, the index and the latest versions) over the presence of the directories, with every answer of the server", OPS.len()),
        0,
        |ch| history(ch, depth),
    );
}
