//! S01: the server's documents are the editor's.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;

use lsp_types::{Position, Range, TextDocumentContentChangeEvent};
use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt;
use tinymist_query::{to_lsp_position, to_lsp_range, to_typst_position, to_typst_range, PositionEncoding};
use tinymist_project::MemDisk;
use tinymist_world::vfs::WorkspaceResolver;
use typst::syntax::{Source, VirtualPath};
use typst::World;

use crate::srv::{self, Srv};

const ENCODINGS: [PositionEncoding; 2] = [PositionEncoding::Utf16, PositionEncoding::Utf8];
const CHARS: [char; 5] = ['a', 'é', '😀', '\n', '\r'];
/// Lines end with these for the compiler, but not for editors.
const EXOTIC: [char; 4] = ['\u{2028}', '\u{85}', '\u{b}', '\u{c}'];

fn width(c: char, e: PositionEncoding) -> usize {
    match e {
        PositionEncoding::Utf16 => c.len_utf16(),
        PositionEncoding::Utf8 => c.len_utf8(),
    }
}

/// The lines of a text without their ends, as editors or the compiler see them.
fn lines(t: &str, all: bool) -> Vec<std::ops::Range<usize>> {
    let mut out = vec![];
    let mut start = 0;
    let mut i = 0;
    let b = t.as_bytes();
    while i < b.len() {
        let end = match &b[i..] {
            [b'\r', b'\n', ..] => 2,
            [b'\r' | b'\n', ..] => 1,
            _ => match t[i..].chars().next().unwrap() {
                c if all && EXOTIC.contains(&c) => c.len_utf8(),
                c => {
                    i += c.len_utf8();
                    continue;
                }
            },
        };
        out.push(start..i);
        i += end;
        start = i;
    }
    out.push(start..b.len());
    out
}

/// The offset that a position means: one of two if it is inside a character.
fn offset(t: &str, all: bool, p: Position, e: PositionEncoding) -> [usize; 2] {
    let lines = lines(t, all);
    let Some(line) = lines.get(p.line as usize) else { return [t.len(); 2] };
    let mut col = 0;
    for (i, c) in t[line.clone()].char_indices() {
        let at = line.start + i;
        if col == p.character as usize {
            return [at; 2];
        }
        col += width(c, e);
        if col > p.character as usize {
            return [at, at + c.len_utf8()];
        }
    }
    [line.end; 2]
}

/// The position of an offset.
fn position(t: &str, all: bool, at: usize, e: PositionEncoding) -> Option<Position> {
    let lines = lines(t, all);
    let l = lines.iter().position(|l| l.start <= at && at <= l.end)?;
    let col: usize = t[lines[l].start..at].chars().map(|c| width(c, e)).sum();
    Some(Position::new(l as u32, col as u32))
}

/// The nth text of up to `len` characters.
fn text(alphabet: &[char], mut n: u64, len: u32) -> Option<String> {
    let mut s = String::new();
    for _ in 0..len {
        let d = (n % (alphabet.len() as u64 + 1)) as usize;
        n /= alphabet.len() as u64 + 1;
        if d == 0 {
            return (n == 0).then_some(s);
        }
        s.push(alphabet[d - 1]);
    }
    Some(s)
}

/// Positions in and around a text.
fn around(t: &str, all: bool, e: PositionEncoding) -> Vec<Position> {
    let mut v = vec![];
    for l in 0..lines(t, all).len() as u32 + 2 {
        let w = lines(t, all).get(l as usize).map_or(0, |r| t[r.clone()].chars().map(|c| width(c, e)).sum::<usize>());
        v.extend((0..w as u32 + 3).map(|c| Position::new(l, c)));
        v.push(Position::new(l, u32::MAX));
    }
    v
}

fn conversions(t: &str, all: bool) -> Result<(), Fail> {
    let source = Source::detached(t);
    for e in ENCODINGS {
        for p in around(t, all, e) {
            let want = offset(t, all, p, e);
            let got = to_typst_position(p, e, &source);
            if !got.is_some_and(|g| want.contains(&g)) {
                return Err(Fail::new("wrong-offset", format!("{e:?} {t:?}: {p:?} is {got:?}, not {want:?}")));
            }
        }
        for at in (0..=t.len()).filter(|i| t.is_char_boundary(*i)) {
            let Some(want) = position(t, all, at, e) else { continue };
            let got = to_lsp_position(at, e, &source);
            if got != want {
                return Err(Fail::new("wrong-position", format!("{e:?} {t:?}: {at} is at {got:?}, not {want:?}")));
            }
            for to in (at..=t.len()).filter(|i| t.is_char_boundary(*i) && position(t, all, *i, e).is_some()) {
                let r = to_lsp_range(at..to, &source, e);
                let back = to_typst_range(r, e, &source);
                if back != Some(at..to) {
                    return Err(Fail::new("range-moved", format!("{e:?} {t:?}: {at}..{to} is {r:?}, which is {back:?}")));
                }
            }
        }
    }
    Ok(())
}

/// The texts that a change may make of one.
fn changed(t: &str, c: &TextDocumentContentChangeEvent, e: PositionEncoding) -> Vec<String> {
    let Some(r) = c.range else { return vec![c.text.clone()] };
    let mut v = vec![];
    for a in offset(t, false, r.start, e) {
        for b in offset(t, false, r.end, e) {
            if a <= b {
                v.push(format!("{}{}{}", &t[..a], c.text, &t[b..]));
            }
        }
    }
    v
}

/// What compilations read.
fn read(s: &Srv, p: &str) -> Option<String> {
    let id = WorkspaceResolver::workspace_file(Some(&Path::new("/w").into()), VirtualPath::new(p.strip_prefix("/w").unwrap()));
    s.state.project.compiler.primary.verse.snapshot().source(id).ok().map(|s| s.text().to_string())
}

const PATHS: [&str; 2] = ["/w/m.typ", "/w/a.typ"];
const OPENED: [&str; 4] = ["", "aé😀\nb", "a\r\n😀b\r\n", "é\rü"];
fn r(a: u32, b: u32, c: u32, d: u32) -> Option<Range> {
    Some(Range::new(Position::new(a, b), Position::new(c, d)))
}

/// What an editor tells about documents, and what then is in them.
fn session(ch: &mut Chooser, depth: usize, few: usize) -> Result<(), Fail> {
    let e = ENCODINGS[ch.choose("the encoding", 2)];
    let disk = vec![("/w/m.typ".into(), "disk".to_string())];
    srv::run(ch, srv::config(e), disk, move |s| {
        let mut model: BTreeMap<&str, Vec<String>> = BTreeMap::new();
        let changes: Vec<TextDocumentContentChangeEvent> = [
            (None, "q\né"),
            (r(0, 1, 0, 3), "x\r"),
            (r(0, 1, 1, 1), "😀"),
            (r(1, 0, 1, 99), "\n"),
            (r(0, 0, 0, 0), "é"),
            (None, ""),
            (r(9, 0, 9, 1), "end"),
            (r(0, 2, 1, 0), ""),
        ]
        .into_iter()
        .map(|(range, text)| TextDocumentContentChangeEvent { range, range_length: None, text: text.into() })
        .collect();
        for _ in 0..depth {
            let d = rt::choose("the document", 2);
            let p = PATHS[d];
            let path: Arc<Path> = Path::new(p).into();
            match rt::choose("what the editor tells", 4 - d) {
                0 => {
                    let t = OPENED[d + rt::choose("the text", OPENED.len() - 3 * d)];
                    rt::note(|| format!("open {p} {t:?}"));
                    s.state.create_source(path, t.to_string()).unwrap();
                    model.insert(p, vec![t.to_string()]);
                }
                1 => {
                    rt::note(|| format!("close {p}"));
                    let _ = s.state.remove_source(path);
                    model.remove(p);
                }
                n => {
                    // One change or two.
                    let picked: Vec<_> = (1..n).map(|_| changes[rt::choose("a change", few)].clone()).collect();
                    rt::note(|| format!("change {p} {:?}", picked.iter().map(|c| (c.range, &c.text)).collect::<Vec<_>>()));
                    let res = s.state.edit_source(path, picked.clone(), e);
                    let Some(texts) = model.get_mut(p) else {
                        if res.is_ok() {
                            return Err(Fail::new("changed-closed", format!("a change of {p}, which is not open, was accepted")));
                        }
                        continue;
                    };
                    if let Err(err) = res {
                        return Err(Fail::new("refused", format!("{err}")));
                    }
                    for c in &picked {
                        *texts = texts.iter().flat_map(|t| changed(t, c, e)).collect();
                    }
                }
            }
            look(s, &mut model)?;
        }
        s.drain();
        for p in PATHS {
            let want = model.get(p).map(|t| t[0].clone()).or_else(|| MemDisk::get(Path::new(p)));
            if read(s, p) != want {
                return Err(Fail::new("not-compiled", format!("compilations read {:?} as {p}, not {want:?}", read(s, p))));
            }
        }
        Ok(format!("{e:?} {model:?}"))
    })
}

fn look(s: &mut Srv, model: &mut BTreeMap<&str, Vec<String>>) -> Result<(), Fail> {
    for p in PATHS {
        let path: Arc<Path> = Path::new(p).into();
        let got = s.state.query_source(path.clone(), |s| Ok(s.text().to_string())).ok();
        match (model.get_mut(p), got) {
            (None, None) => {}
            (Some(texts), Some(t)) if texts.contains(&t) => *texts = vec![t],
            (m, g) => return Err(Fail::new("other-text", format!("{p} is {g:?}, not one of {m:?}"))),
        }
    }
    Ok(())
}

pub fn documents(ctx: &mut Ctx) {
    let len = ctx.by(6, 7);
    let n = (CHARS.len() as u64 + 1).pow(len);
    ctx.inputs(
        "positions",
        &format!("every text of up to {len} of a, é, 😀, line feed and carriage return, both encodings: every position in and around it means what the protocol says, every offset has its position, and every range comes back"),
        n,
        |i, obs| {
            let Some(t) = text(&CHARS, i, len) else { return Ok(()) };
            obs.outcome(&t);
            if t.len() > 1 {
                obs.nontrivial();
            }
            obs.sample(|| format!("{t:?}"));
            conversions(&t, false)
        },
    );
    let all: Vec<char> = CHARS.into_iter().chain(EXOTIC).collect();
    let len = ctx.by(3, 4);
    ctx.inputs(
        "separators",
        &format!("the same for every text of up to {len} of those characters and of four that end lines for the compiler only"),
        (all.len() as u64 + 1).pow(len),
        |i, obs| {
            let Some(t) = text(&all, i, len) else { return Ok(()) };
            obs.outcome(&t);
            if !t.contains(EXOTIC) {
                return Ok(());
            }
            obs.nontrivial();
            obs.sample(|| format!("{t:?}"));
            // They disagree about lines, and about nothing else.
            conversions(&t, false).or_else(|f| {
                conversions(&t, true)?;
                Err(Fail::new("line-separators", f.msg))
            })
        },
    );
    let len = ctx.by(4, 5);
    let n = (CHARS.len() as u64 + 1).pow(len);
    ctx.inputs(
        "edits",
        &format!("every text of up to {len} characters, every range in and around it, three replacements, both encodings: the edited document is the editor's"),
        n,
        |i, obs| {
            let Some(t) = text(&CHARS, i, len) else { return Ok(()) };
            obs.outcome(&t);
            obs.nontrivial();
            obs.sample(|| format!("{t:?}"));
            for e in ENCODINGS {
                let ps = around(&t, false, e);
                for (i, a) in ps.iter().enumerate() {
                    for b in &ps[i..] {
                        for with in ["", "b", "é\n"] {
                            let mut s = Source::detached(&*t);
                            let range = Range::new(*a, *b);
                            let change = TextDocumentContentChangeEvent { range: Some(range), range_length: None, text: with.into() };
                            let want = changed(&t, &change, e);
                            if let Some(r) = to_typst_range(range, e, &s) {
                                if r.start <= r.end {
                                    s.edit(r, with);
                                }
                            }
                            if !want.iter().any(|w| w == s.text()) {
                                return Err(Fail::new("other-text", format!("{e:?} {t:?}: {a:?}..{b:?} by {with:?} gives {:?}, not {want:?}", s.text())));
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    );
    let few = ctx.by(5, 8);
    ctx.explore(
        "sessions",
        "histories",
        &format!("every sequence of three notifications about two documents: opened with one of the texts, closed, changed by one or two of {few} changes"),
        0,
        move |ch| session(ch, 3, few),
    );
}
