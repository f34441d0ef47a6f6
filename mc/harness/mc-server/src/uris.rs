//! S05: documents have one name.

use std::path::{Path, PathBuf};

use lsp_types::Url;
use mccore::explore::Fail;
use mccore::report::Ctx;
use tinymist_query::{path_to_url, url_to_path};

const PIECES: [&str; 14] = ["a", "B", "1", " ", "%", "%20", "#", "?", "é", "😀", "+", ":", "~", "."];

/// The nth name of up to `len` pieces.
fn name(mut n: u64, len: u32) -> Option<String> {
    let mut s = String::new();
    for _ in 0..len {
        let d = (n % (PIECES.len() as u64 + 1)) as usize;
        n /= PIECES.len() as u64 + 1;
        if d == 0 {
            return (n == 0).then_some(s);
        }
        s += PIECES[d - 1];
    }
    Some(s)
}

/// What a client's encoder (of the URI library of VS Code) makes of a path.
fn encoded(path: &str) -> String {
    let mut s = String::new();
    for b in path.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' | b'/' => s.push(b as char),
            _ => s += &format!("%{b:02X}"),
        }
    }
    s
}

pub fn uris(ctx: &mut Ctx) {
    let len = ctx.by(4, 5);
    let n = (PIECES.len() as u64 + 1).pow(len);
    ctx.inputs(
        "files",
        &format!("every absolute path of one or two segments with up to {len} of 14 pieces (blanks, percent signs, reserved and non-ASCII characters): the URI of the path is a URI of it, and so is the one that a client makes"),
        n,
        |i, obs| {
            let Some(s) = name(i, len) else { return Ok(()) };
            if s.is_empty() || s == "." || s == ".." {
                return Ok(());
            }
            obs.outcome(&s);
            obs.nontrivial();
            obs.sample(|| s.clone());
            for p in [format!("/{s}"), format!("/{s}/m.typ"), format!("/d/{s}.typ")] {
                let path = Path::new(&p);
                let url = path_to_url(path).map_err(|e| Fail::new("no-uri", format!("{path:?}: {e}")))?;
                if url.scheme() != "file" || url_to_path(url.clone()) != path {
                    return Err(Fail::new("other-file", format!("{path:?} is {url}, which is {:?}", url_to_path(url.clone()))));
                }
                let client = Url::parse(&format!("file://{}", encoded(&p))).unwrap();
                if url_to_path(client.clone()) != path {
                    return Err(Fail::new("other-file", format!("{client} is {:?}", url_to_path(client.clone()))));
                }
            }
            Ok(())
        },
    );
    ctx.inputs(
        "untitled",
        &format!("every name of up to {len} of 14 pieces of a document that was never saved: its URI stands for a path of its own, and the URI of the path stands for the same document"),
        n,
        |i, obs| {
            let Some(s) = name(i, len) else { return Ok(()) };
            if s.is_empty() || s == "." || s == ".." {
                return Ok(());
            }
            obs.outcome(&s);
            obs.nontrivial();
            obs.sample(|| s.clone());
            let client = Url::parse(&format!("untitled:{}", encoded(&s))).unwrap();
            let path = url_to_path(client.clone());
            let want = PathBuf::from(format!("/untitled/{s}"));
            if path != want {
                return Err(Fail::new("other-document", format!("{client} is {path:?}, not {want:?}")));
            }
            let back = path_to_url(&path).map_err(|e| Fail::new("no-uri", format!("{path:?}: {e}")))?;
            if url_to_path(back.clone()) != path {
                return Err(Fail::new("other-document", format!("{path:?} is {back}, which is {:?}", url_to_path(back.clone()))));
            }
            if percent(back.as_str()) != percent(client.as_str()) {
                return Err(Fail::new("other-uri", format!("the editor's {client} is called {back}")));
            }
            // One that shall be saved at a place.
            let placed = Url::parse(&format!("untitled:/d/{}", encoded(&s))).unwrap();
            let path = url_to_path(placed.clone());
            let want = PathBuf::from(format!("/untitled/d/{s}"));
            if path != want {
                return Err(Fail::new("other-document", format!("{placed} is {path:?}, not {want:?}")));
            }
            let back = path_to_url(&path).map_err(|e| Fail::new("no-uri", format!("{path:?}: {e}")))?;
            if percent(back.as_str()) != percent(placed.as_str()) {
                let slash = percent(&back.as_str().replacen(':', ":/", 1)) == percent(placed.as_str());
                return Err(Fail::new(if slash { "untitled-slash" } else { "other-uri" }, format!("the editor's {placed} is called {back}")));
            }
            Ok(())
        },
    );
}

/// What two spellings of the same URI have in common.
fn percent(u: &str) -> String {
    let mut out = vec![];
    let b = u.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let hex = || u8::from_str_radix(u.get(i + 1..i + 3)?, 16).ok();
        match b[i] {
            b'%' if hex().is_some() => {
                let c = hex().unwrap();
                if c.is_ascii_alphanumeric() || !c.is_ascii() || b" ~:+".contains(&c) {
                    out.push(c);
                } else {
                    out.extend(format!("%{c:02X}").bytes());
                }
                i += 3;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}
