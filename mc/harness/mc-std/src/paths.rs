//! F05: the laws of path arithmetic on every path of a bounded alphabet,
//! against a lexical reference of its own.

use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

use mccore::explore::Fail;
use mccore::report::Ctx;
use mccore::rt::quietly;
use tinymist_std::fs::paths as fsp;
use tinymist_std::path::{clean, diff, unix_slash, PathClean};

/// What a path means lexically: whether it starts at the root, how often it
/// climbs from its start, and the names it then descends into.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Place {
    abs: bool,
    ups: usize,
    names: Vec<Vec<u8>>,
}

fn raw_comps(p: &[u8]) -> Vec<&[u8]> {
    p.split(|&b| b == b'/').filter(|c| !c.is_empty()).collect()
}

fn place(p: &[u8]) -> Place {
    let mut r = Place { abs: p.first() == Some(&b'/'), ups: 0, names: vec![] };
    for c in raw_comps(p) {
        match c {
            b"." => {}
            b".." => {
                if r.names.pop().is_none() && !r.abs {
                    r.ups += 1;
                }
            }
            c => r.names.push(c.to_vec()),
        }
    }
    r
}

/// The shortest text of a place.
fn text(p: &Place) -> Vec<u8> {
    let mut parts = vec![b"..".to_vec(); p.ups];
    parts.extend(p.names.iter().cloned());
    let body = parts.join(&b'/');
    match (p.abs, body.is_empty()) {
        (true, _) => [b"/".to_vec(), body].concat(),
        (false, true) => b".".to_vec(),
        (false, false) => body,
    }
}

fn bytes(p: &Path) -> &[u8] {
    p.as_os_str().as_bytes()
}

fn show(p: &[u8]) -> String {
    format!("{:?}", OsStr::from_bytes(p))
}

/// The `i`th path made of at most `depth` components.
struct Domain {
    comps: Vec<&'static [u8]>,
    depth: u32,
    starts: Vec<&'static [u8]>,
}

impl Domain {
    fn new(comps: &[&'static str], depth: u32) -> Self {
        Domain {
            comps: comps.iter().map(|s| s.as_bytes()).collect(),
            depth,
            starts: vec![b"", b"/", b"//"],
        }
    }

    fn seqs(&self) -> u64 {
        (0..=self.depth).map(|d| (self.comps.len() as u64).pow(d)).sum()
    }

    fn len(&self) -> u64 {
        self.seqs() * self.starts.len() as u64 * 2
    }

    fn get(&self, i: u64) -> Vec<u8> {
        let trailing = i % 2 == 1;
        let start = self.starts[(i / 2) as usize % self.starts.len()];
        let mut k = i / 2 / self.starts.len() as u64;
        let n = self.comps.len() as u64;
        let mut d = 0;
        while k >= n.pow(d) {
            k -= n.pow(d);
            d += 1;
        }
        let mut parts = vec![];
        for _ in 0..d {
            parts.push(self.comps[(k % n) as usize]);
            k /= n;
        }
        let mut p = start.to_vec();
        p.extend(parts.join(&b'/'));
        if trailing {
            p.push(b'/');
        }
        p
    }
}

fn path(p: &[u8]) -> PathBuf {
    PathBuf::from(OsString::from_vec(p.to_vec()))
}

fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    quietly(f).map_err(|m| Fail::new(format!("{what} panics"), format!("{what} panics: {m}")))
}

pub fn paths(ctx: &mut Ctx) {
    let names = ["a", "b", "ab", ".", "..", "", "ü x", "...", ".a"];
    let dom = Domain::new(&names, ctx.by(5, 6));
    ctx.inputs(
        "clean",
        &format!("cleaning every path of at most {} components of {names:?}, relative or not, with and without trailing slash", dom.depth),
        dom.len(),
        |i, o| {
            let p = dom.get(i);
            let want = place(&p);
            o.sample(|| show(&p));
            o.outcome(&want);
            if !want.names.is_empty() {
                o.nontrivial();
            }
            let c = guard("clean", || clean(path(&p)))?;
            let c2 = guard("PathClean::clean", || Path::new(OsStr::from_bytes(&p)).clean())?;
            if c != c2 {
                return Err(Fail::new("clean differs from PathClean", format!("{}: {c:?} / {c2:?}", show(&p))));
            }
            let b = bytes(&c);
            if place(b) != want {
                return Err(Fail::new("clean changes the meaning", format!("clean({}) = {c:?}", show(&p))));
            }
            if b.is_empty() || b != text(&want) {
                return Err(Fail::new("clean is not the shortest form", format!("clean({}) = {c:?}", show(&p))));
            }
            let again = guard("clean", || clean(&c))?;
            if again.as_os_str() != c.as_os_str() {
                return Err(Fail::new("clean is not idempotent", format!("clean({}) = {c:?}, then {again:?}", show(&p))));
            }
            Ok(())
        },
    );

    ctx.inputs(
        "slash form",
        "the slash form of the same paths and of their cleaned forms",
        dom.len(),
        |i, o| {
            let p = dom.get(i);
            o.sample(|| show(&p));
            for (cleaned, p) in [(false, p.clone()), (true, text(&place(&p)))] {
                let s = guard("unix_slash", || unix_slash(&path(&p)))?;
                o.outcome(&s);
                let comps = |p: &[u8]| -> Vec<Vec<u8>> {
                    raw_comps(p).into_iter().filter(|c| *c != b".").map(<[u8]>::to_vec).collect()
                };
                let same = comps(s.as_bytes()) == comps(&p) && s.starts_with('/') == (p.first() == Some(&b'/'));
                if !same {
                    return Err(Fail::new("the slash form means another path", format!("unix_slash({}) = {s:?}", show(&p))));
                }
                if s.is_empty() || s.contains("//") || s.len() > 1 && s.ends_with('/') {
                    return Err(Fail::new("the slash form is not normal", format!("unix_slash({}) = {s:?}", show(&p))));
                }
                if cleaned && s.as_bytes() != &p[..] {
                    return Err(Fail::new("the slash form of a clean path is not itself", format!("unix_slash({}) = {s:?}", show(&p))));
                }
                let again = guard("unix_slash", || unix_slash(Path::new(&s)))?;
                if again != s {
                    return Err(Fail::new("the slash form is not idempotent", format!("{s:?} then {again:?}")));
                }
            }
            Ok(())
        },
    );

    let small = ["a", "b", ".", "..", "c", "ab"];
    let ends = Domain { starts: vec![b"", b"/"], ..Domain::new(&small, ctx.by(3, 4)) };
    let n = ends.len();
    ctx.inputs(
        "relative paths",
        &format!("the relative path between every two paths of at most {} components of {small:?}", ends.depth),
        n * n,
        |i, o| {
            // The first argument is the target, the second the base, as every caller has it.
            let (fr, to) = (ends.get(i / n), ends.get(i % n));
            o.sample(|| format!("{} -> {}", show(&fr), show(&to)));
            let (pf, pt) = (place(&fr), place(&to));
            // Where the target is reachable by name: climbing out of an
            // unknown directory has no way back into it.
            let exists = match (pf.abs, pt.abs) {
                (true, false) => false,
                (false, true) => true,
                _ => pf.ups <= pt.ups,
            };
            let d = guard("diff", || diff(&path(&to), &path(&fr)))?;
            o.outcome((&d, exists));
            match d {
                None if exists => Err(Fail::new(
                    "no relative path although it exists",
                    format!("diff({}, {}) = None", show(&to), show(&fr)),
                )),
                Some(d) if !exists => Err(Fail::new(
                    "a relative path that cannot exist",
                    format!("diff({}, {}) = {d:?}", show(&to), show(&fr)),
                )),
                None => Ok(()),
                Some(d) => {
                    o.nontrivial();
                    let joined = path(&fr).join(&d);
                    if place(bytes(&joined)) != pt {
                        return Err(Fail::new(
                            "the relative path leads elsewhere",
                            format!("diff({}, {}) = {d:?}, which leads to {joined:?}", show(&to), show(&fr)),
                        ));
                    }
                    if pf.abs == pt.abs && d.is_absolute() {
                        return Err(Fail::new(
                            "the relative path is absolute",
                            format!("diff({}, {}) = {d:?}", show(&to), show(&fr)),
                        ));
                    }
                    Ok(())
                }
            }
        },
    );

    ctx.inputs("normalize", "normalizing the paths of the first part", dom.len(), |i, o| {
        let p = dom.get(i);
        o.sample(|| show(&p));
        let mut want = Place { abs: p.first() == Some(&b'/'), ups: 0, names: vec![] };
        for c in raw_comps(&p) {
            match c {
                b"." => {}
                b".." => {
                    want.names.pop();
                }
                c => want.names.push(c.to_vec()),
            }
        }
        let n = guard("normalize_path", || fsp::normalize_path(&path(&p)))?;
        o.outcome(&n);
        if raw_comps(bytes(&n)).iter().any(|c| *c == b"." || *c == b"..") {
            return Err(Fail::new("normalize_path leaves dots", format!("normalize_path({}) = {n:?}", show(&p))));
        }
        if place(bytes(&n)) != want {
            return Err(Fail::new("normalize_path leads elsewhere", format!("normalize_path({}) = {n:?}", show(&p))));
        }
        let again = guard("normalize_path", || fsp::normalize_path(&n))?;
        if again != n {
            return Err(Fail::new("normalize_path is not idempotent", format!("{n:?} then {again:?}")));
        }
        Ok(())
    });

    let up = Domain::new(&["a", "b", "..", "ü"], ctx.by(3, 4));
    let n = up.len();
    ctx.inputs(
        "ancestors",
        "the ancestors of every path of at most 3 (4) components, unbounded and up to every other such path",
        n * (n + 1),
        |i, o| {
            let p = path(&up.get(i / (n + 1)));
            let stop = (i % (n + 1)).checked_sub(1).map(|k| path(&up.get(k)));
            o.sample(|| format!("{p:?} up to {stop:?}"));
            // One more component removed each time, down to the start.
            let comps: Vec<_> = p.components().collect();
            let mut want = vec![];
            let mut k = comps.len();
            loop {
                let a: PathBuf = comps[..k].iter().collect();
                let last = stop.as_ref().is_some_and(|s| {
                    s.components().count() == k && s.components().zip(&comps[..k]).all(|(x, y)| x == *y)
                });
                let root = k == 0 || k == 1 && p.has_root();
                want.push(a);
                if last || root {
                    break;
                }
                k -= 1;
            }
            let got = guard("ancestors", || {
                let mut it = fsp::ancestors(&p, stop.as_deref());
                let v: Vec<PathBuf> = it.by_ref().take(64).map(Path::to_path_buf).collect();
                (v, it.next().is_none())
            })?;
            o.outcome(got.0.len());
            if got.0 != want || !got.1 {
                return Err(Fail::new(
                    "the ancestors are others",
                    format!("ancestors({p:?}, {stop:?}) = {:?}, ended {}, not {want:?}", got.0, got.1),
                ));
            }
            Ok(())
        },
    );

    let byte = [b'a', b'/', b'.', 0xc3, 0xbc, 0xff, b' '];
    let depth = ctx.by(5u32, 6);
    let n: u64 = (byte.len() as u64).pow(depth);
    ctx.inputs("bytes of paths", "every byte string of that length, to a path and back", n, |i, o| {
        let mut k = i;
        let p: Vec<u8> = (0..depth)
            .map(|_| {
                let b = byte[(k % 7) as usize];
                k /= 7;
                b
            })
            .collect();
        let q = guard("bytes2path", || fsp::bytes2path(&p))?.map_err(|e| Fail::new("bytes2path fails", format!("{}: {e}", show(&p))))?;
        let r = guard("path2bytes", || fsp::path2bytes(&q).map(<[u8]>::to_vec))?
            .map_err(|e| Fail::new("path2bytes fails", format!("{}: {e}", show(&p))))?;
        o.outcome(&r);
        if r != p || bytes(&q) != p {
            return Err(Fail::new("the bytes of a path change", format!("{} becomes {}", show(&p), show(&r))));
        }
        Ok(())
    });

    let list = ["/bin", "", "a b", "x:y", "ü", ":", "\"q\""];
    let depth = ctx.by(4u32, 5);
    let n: u64 = (0..=depth).map(|d| 7u64.pow(d)).sum();
    ctx.inputs("search paths", "joining every list of at most 4 (5) paths, with and without separators inside", n, |i, o| {
        let mut k = i;
        let mut d = 0;
        while k >= 7u64.pow(d) {
            k -= 7u64.pow(d);
            d += 1;
        }
        let parts: Vec<&str> = (0..d)
            .map(|_| {
                let s = list[(k % 7) as usize];
                k /= 7;
                s
            })
            .collect();
        o.sample(|| format!("{parts:?}"));
        let bad = parts.iter().any(|p| p.contains(':'));
        let r = guard("join_paths", || fsp::join_paths(&parts, "VAR"))?;
        o.outcome((bad, d));
        match r {
            Ok(_) if bad => Err(Fail::new("a list that cannot be told apart is joined", format!("{parts:?}"))),
            Err(e) if !bad => Err(Fail::new("a good list is refused", format!("{parts:?}: {e}"))),
            Err(e) => {
                let t = e.to_string();
                if t.contains("VAR") && parts.iter().all(|p| t.contains(&format!("{:?}", Path::new(p)))) {
                    Ok(())
                } else {
                    Err(Fail::new("the error does not name variable and paths", t))
                }
            }
            Ok(s) => {
                let back: Vec<PathBuf> = std::env::split_paths(&s).collect();
                let want: Vec<PathBuf> = if parts.is_empty() { vec!["".into()] } else { parts.iter().map(PathBuf::from).collect() };
                if back == want {
                    Ok(())
                } else {
                    Err(Fail::new("a joined list splits into another", format!("{parts:?}: {s:?}")))
                }
            }
        }
    });
}
