//! E01: every way to make and wrap an error, to a bounded depth.

use std::cell::Cell;
use std::sync::Mutex;

use ecow::EcoString;
use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::quietly;
use tinymist_std::error::prelude::*;
use tinymist_std::error::{DiagMessage, DiagSeverity, ErrKindExt};
use tinymist_std::{bail, error_once, error_once_map, error_once_map_string, ErrKind, Error};

type Args = Vec<(&'static str, String)>;

/// The reference of one error: what it says of itself, and every text that
/// must be visible in it.
#[derive(Clone, Debug)]
struct Want {
    loc: String,
    args: Args,
    kind: Kind,
    visible: Vec<String>,
}

#[derive(Clone, Debug)]
enum Kind {
    None,
    Msg(String),
    Diag(String),
    Inner(Box<Want>),
}

const LOCS: [&str; 3] = ["loc", "", "a.b: c {0}"];
const MSGS: [&str; 5] = ["text", "", "{loc} {}", "zeile\nzwei", "ü😀, with []"];

fn arg_sets() -> Vec<Option<Args>> {
    vec![
        None,
        Some(vec![]),
        Some(vec![("key", "value".into())]),
        Some(vec![("b", "2".into()), ("a", "1".into())]),
        Some(vec![("k", "x".into()), ("k", "{y}".into()), ("", "".into())]),
    ]
}

fn visible(loc: &str, args: &Args) -> Vec<String> {
    let mut v = vec![loc.to_string()];
    for (k, a) in args {
        v.push(k.to_string());
        v.push(a.clone());
    }
    v
}

fn made(loc: &str, kind: Kind, args: &Option<Args>) -> Want {
    let args = args.clone().unwrap_or_default();
    let mut visible = visible(loc, &args);
    match &kind {
        Kind::None => {}
        Kind::Msg(m) | Kind::Diag(m) => visible.push(m.clone()),
        Kind::Inner(w) => visible.extend(w.visible.iter().cloned()),
    }
    Want { loc: loc.into(), args, kind, visible }
}

fn matches(e: &Error, w: &Want, way: &str) -> Result<(), Fail> {
    let bad = |what: &str| {
        Err(Fail::new(
            format!("{way}: {what}"),
            format!("{way}: {what}: {:?} {:?} {:?}, not {w:?}", e.loc(), e.kind(), e.arguments()),
        ))
    };
    if e.loc() != w.loc {
        return bad("another location");
    }
    if e.arguments() != w.args {
        return bad("other arguments");
    }
    match (e.kind(), &w.kind) {
        (ErrKind::None, Kind::None) => {}
        (ErrKind::Msg(m), Kind::Msg(x)) => {
            if m.as_str() != x {
                return bad("another message");
            }
        }
        (ErrKind::Diag(d), Kind::Diag(x)) => {
            if d.message.as_str() != x {
                return bad("another message");
            }
        }
        (ErrKind::Inner(i), Kind::Inner(x)) => matches(i, x, way)?,
        _ => return bad("another kind"),
    }
    let shown = quietly(|| (format!("{e}"), format!("{e:?}")))
        .map_err(|m| Fail::new(format!("{way}: showing the error panics"), m))?;
    for t in [&shown.0, &shown.1] {
        if let Some(v) = w.visible.iter().find(|v| !t.contains(v.as_str())) {
            return Err(Fail::new(format!("{way}: the text lacks a part"), format!("{way}: {t:?} lacks {v:?}")));
        }
    }
    Ok(())
}

fn boxed(a: &Option<Args>) -> Option<Box<[(&'static str, String)]>> {
    a.clone().map(Vec::into_boxed_slice)
}

/// A first error.
fn base(ch: &mut Chooser, rich: bool) -> (Error, Want) {
    let loc = LOCS[ch.choose("location", LOCS.len())];
    let sets = arg_sets();
    let args = sets[ch.choose("arguments", if rich { sets.len() } else { 3 })].clone();
    let n = MSGS.len();
    let k = ch.choose("kind", n * 2 + 1);
    let (kind, want) = if k < n {
        (ErrKind::Msg(MSGS[k].into()), Kind::Msg(MSGS[k].into()))
    } else if k < 2 * n {
        (ErrKind::Diag(Box::new(diag(MSGS[k - n], DiagSeverity::Warning))), Kind::Diag(MSGS[k - n].into()))
    } else {
        (ErrKind::None, Kind::None)
    };
    (Error::new(loc, kind, boxed(&args)), made(loc, want, &args))
}

fn diag(m: &str, severity: DiagSeverity) -> DiagMessage {
    serde_json::from_value(serde_json::json!({
        "package": "p", "path": "x.typ", "message": m, "severity": severity,
        "range": {"start": {"line": 1, "character": 2}, "end": {"line": 3, "character": 4}},
    }))
    .unwrap()
}

/// A wrapped error and its reference.
fn wrap(ch: &mut Chooser, e: Error, w: Want, rich: bool) -> (Error, Want, &'static str) {
    const WAYS: [&str; 14] = [
        "wrap_err", "wrap_err_with_args", "context", "with_context", "context_ut", "with_context_ut", "map_err",
        "map_string_err", "map_err_with_args", "map_string_err_with_args", "error_once_map!", "error_once_map_string!",
        "through anyhow", "map_into_err",
    ];
    let way = ch.choose("way", WAYS.len());
    let loc = LOCS[ch.choose("location", if rich { 3 } else { 2 })];
    let sets = arg_sets();
    let takes = matches!(way, 1 | 3 | 5 | 8 | 9);
    let args = if takes { sets[ch.choose("arguments", if rich { sets.len() } else { 3 })].clone() } else { None };
    let shown = e.to_string();
    // The wrapped error is kept as an error or as its text.
    let inner = Kind::Inner(Box::new(w.clone()));
    let mut text = made(loc, Kind::Msg(shown), &args);
    text.visible.extend(w.visible.iter().cloned());
    let list = args.clone().unwrap_or_default();
    // `with_args` forms always have a list.
    let r: Result<(), Error> = Err(e);
    let got = match way {
        0 => r.map_err(wrap_err(loc)),
        1 => r.map_err(wrap_err_with_args(loc, list)),
        2 => WithContext::context(r, loc),
        3 => WithContext::with_context(r, loc, || boxed(&args)),
        4 => r.context_ut(loc),
        5 => r.with_context_ut(loc, || boxed(&args)),
        6 => r.map_err(map_err(loc)),
        7 => r.map_err(map_string_err(loc)),
        8 => r.map_err(map_err_with_args(loc, list)),
        9 => r.map_err(map_string_err_with_args(loc, list)),
        10 => r.map_err(error_once_map!(loc, key: "value", other: 1 + 1)),
        11 => r.map_err(error_once_map_string!(loc, key: "value", other: 1 + 1)),
        12 => r.map_err(anyhow::Error::new).map_err(Error::from),
        _ => r.map_err(map_into_err::<Error, Error>(loc)),
    }
    .unwrap_err();
    let want = match way {
        0 | 1 => made(loc, inner, &args),
        10 | 11 => {
            let mut t = text;
            t.args = vec![("key", "value".into()), ("other", "2".into())];
            t.visible.extend(["key", "value", "other", "2"].map(String::from));
            t
        }
        12 => Want { loc: String::new(), args: vec![], ..text },
        _ => text,
    };
    let mut want = want;
    if way == 12 {
        want.visible.retain(|v| w.visible.contains(v));
    }
    (got, want, WAYS[way])
}

pub fn errors(ctx: &mut Ctx) {
    let depth = ctx.by(2, 3);
    ctx.explore(
        "wrapping",
        "histories",
        &format!("an error of every kind, wrapped up to {depth} times in every way"),
        0,
        |ch: &mut Chooser| {
            let (mut e, mut w) = base(ch, true);
            matches(&e, &w, "Error::new")?;
            let n = ch.choose("wraps", depth + 1);
            for k in 0..n {
                let way;
                (e, w, way) = wrap(ch, e, w, k == 0);
                ch.note(|| format!("{way}: {e}"));
                matches(&e, &w, way)?;
                matches(&e.clone(), &w, way)?;
            }
            ch.observe(e.to_string());
            Ok(())
        },
    );

    let many = 14;
    ctx.explore("sources", "inputs", "every source of errors, given context in every way with every arguments", 0, |ch: &mut Chooser| {
        let src = ch.choose("source", many);
        let loc = LOCS[ch.choose("location", 3)];
        let sets = arg_sets();
        let args = sets[ch.choose("arguments", sets.len())].clone();
        let way = ch.choose("way", 2);
        let m = MSGS[ch.choose("message", MSGS.len())];
        let calls = Cell::new(0);
        let f = || {
            calls.set(calls.get() + 1);
            boxed(&args)
        };
        fn go<E: ErrKindExt>(
            e: E,
            way: usize,
            loc: &'static str,
            f: impl FnOnce() -> Option<Box<[(&'static str, String)]>>,
        ) -> Error {
            let r: Result<u8, E> = Err(e);
            if way == 0 { WithContext::context(r, loc) } else { WithContext::with_context(r, loc, f) }.unwrap_err()
        }
        fn untyped<E: std::fmt::Display>(
            e: E,
            way: usize,
            loc: &'static str,
            f: impl FnOnce() -> Option<Box<[(&'static str, String)]>>,
        ) -> Error {
            let r: Result<u8, E> = Err(e);
            if way == 0 { r.context_ut(loc) } else { r.with_context_ut(loc, f) }.unwrap_err()
        }
        let s = m.to_string();
        let (e, kind) = match src {
            0 => (go(s.clone(), way, loc, f), Kind::Msg(s)),
            1 => (go(m, way, loc, f), Kind::Msg(s)),
            2 => (go(&s, way, loc, f), Kind::Msg(s.clone())),
            3 => (go(EcoString::from(m), way, loc, f), Kind::Msg(s)),
            4 => (go(&m as &dyn std::fmt::Display, way, loc, f), Kind::Msg(s)),
            5 => (go(ErrKind::Msg(m.into()), way, loc, f), Kind::Msg(s)),
            6 => (go(ErrKind::None, way, loc, f), Kind::None),
            7 => {
                let e = std::io::Error::other(s.clone());
                (go(e, way, loc, f), Kind::Msg(s))
            }
            8 => {
                let e = || std::str::from_utf8(b"ab\xff").unwrap_err();
                (go(e(), way, loc, f), Kind::Msg(e().to_string()))
            }
            9 => {
                let e = || serde_json::from_str::<u8>("{").unwrap_err();
                (go(e(), way, loc, f), Kind::Msg(e().to_string()))
            }
            10 => (go(anyhow::anyhow!("{m}"), way, loc, f), Kind::Msg(s)),
            11 => (untyped(s.clone(), way, loc, f), Kind::Msg(s)),
            12 => {
                let e = std::fs::File::open("/nowhere/at all").unwrap_err();
                let t = e.to_string();
                (untyped(e, way, loc, f), Kind::Msg(t))
            }
            _ => {
                let r: Option<u8> = None;
                (
                    if way == 0 { r.context(loc) } else { r.with_context(loc, f) }.unwrap_err(),
                    Kind::None,
                )
            }
        };
        if calls.get() != way {
            return Err(Fail::new("the context is not computed once", format!("source {src}: {} times", calls.get())));
        }
        let w = made(loc, kind, if way == 0 { &None } else { &args });
        ch.note(|| format!("{e}"));
        ch.observe(e.to_string());
        matches(&e, &w, "context")?;

        // A success is passed through, without computing any context.
        let f = || -> Option<Box<[(&'static str, String)]>> {
            calls.set(100);
            None
        };
        let oks = [
            WithContext::context(Ok::<_, String>(m), loc).ok(),
            WithContext::with_context(Ok::<_, Error>(m), loc, f).ok(),
            WithContext::context(Some(m), loc).ok(),
            WithContext::with_context(Some(m), loc, f).ok(),
            Ok::<_, String>(m).context_ut(loc).ok(),
            Ok::<_, std::io::Error>(m).with_context_ut(loc, f).ok(),
            Ok::<_, String>(m).map_err(map_err(loc)).ok(),
        ];
        if calls.get() == 100 || oks.iter().any(|o| *o != Some(m)) {
            return Err(Fail::new("a success does not pass", format!("{oks:?}")));
        }
        Ok(())
    });

    ctx.explore("macros", "inputs", "every form of the error macros", 0, |ch: &mut Chooser| {
        let form = ch.choose("form", 7);
        let loc = LOCS[ch.choose("location", 3)];
        let m = MSGS[ch.choose("message", MSGS.len())];
        let num = ch.choose("number", 3);
        let arg = |k: &'static str, v: &str| (k, v.to_string());
        let (e, w) = match form {
            0 => (error_once!(loc), made(loc, Kind::None, &Some(vec![]))),
            1 => (error_once!(loc, key: m), made(loc, Kind::None, &Some(vec![arg("key", m)]))),
            2 => (
                error_once!(loc, z: num, a: "1", m: loc,),
                made(loc, Kind::None, &Some(vec![arg("z", &num.to_string()), arg("a", "1"), arg("m", loc)])),
            ),
            3 => (error_once_map!(loc)(m), made(loc, Kind::Msg(m.into()), &None)),
            4 => (
                error_once_map!(loc, z: num, a: "1")(m),
                made(loc, Kind::Msg(m.into()), &Some(vec![arg("z", &num.to_string()), arg("a", "1")])),
            ),
            5 => (error_once_map_string!(loc)(num), made(loc, Kind::Msg(num.to_string()), &None)),
            _ => {
                let line = Cell::new(0);
                let f = || -> Result<(), Error> {
                    line.set(line!() + 1);
                    bail!("no {m} of {}", num)
                };
                let e = f().unwrap_err();
                let here = format!("{}:{}:", file!(), line.get());
                if !e.loc().starts_with(&here) {
                    return Err(Fail::new("bail! names another place", format!("{}, not {here}", e.loc())));
                }
                let loc = e.loc();
                (e, made(loc, Kind::Msg(format!("no {m} of {num}")), &None))
            }
        };
        ch.note(|| format!("{e}"));
        ch.observe(e.to_string());
        // Argument texts are quoted where they are shown.
        let mut w = w;
        if form == 1 {
            w.visible.retain(|v| v != m);
            w.visible.push(format!("{m:?}"));
        }
        matches(&e, &w, "macro")
    });

    ctx.explore("logging", "inputs", "reporting errors to the log", 0, |ch: &mut Chooser| {
        let fails = ch.choose("fails", 2) == 1;
        let with = ch.choose("with", 2) == 1;
        let m = MSGS[ch.choose("message", MSGS.len())];
        let r: Result<&str, Error> = if fails { Err(error_once!("where", k: 1)) } else { Ok(m) };
        let calls = Cell::new(0);
        let _one = LOG_LOCK.lock().unwrap();
        *LOGGED.lock().unwrap() = Some(vec![]);
        let got = if with {
            r.log_error_with(|| {
                calls.set(calls.get() + 1);
                m.to_string()
            })
        } else {
            r.log_error(m)
        };
        let logged = LOGGED.lock().unwrap().take().unwrap();
        ch.observe((fails, with, &logged));
        let good = match (fails, &logged[..]) {
            (false, []) => got == Some(m) && calls.get() == 0,
            (true, [(log::Level::Error, t)]) => {
                got.is_none() && calls.get() == usize::from(with) && t.contains(m) && t.contains("where") && t.contains('k')
            }
            _ => false,
        };
        if good {
            Ok(())
        } else {
            Err(Fail::new("the log says something else", format!("{got:?}, {logged:?}")))
        }
    });

    ctx.explore("diagnostics", "inputs", "the wire form of diagnostics of every severity", 0, |ch: &mut Chooser| {
        let s = ch.choose("severity", 4);
        let m = MSGS[ch.choose("message", MSGS.len())];
        let ranged = ch.choose("range", 2) == 1;
        let (sev, name) = [
            (DiagSeverity::Error, "error"),
            (DiagSeverity::Warning, "warning"),
            (DiagSeverity::Information, "information"),
            (DiagSeverity::Hint, "hint"),
        ][s]
            .clone();
        let mut d = diag(m, sev);
        if !ranged {
            d.range = None;
        }
        let v = serde_json::to_value(&d).unwrap();
        let back: DiagMessage = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        ch.observe(v.to_string());
        if v["severity"] != s + 1 || d.severity.to_string() != name || back.severity.to_string() != name {
            return Err(Fail::new("another severity", format!("{v}, {}", back.severity)));
        }
        if back.message != d.message || back.path != d.path || back.package != d.package || back.range != d.range || v["message"] != m {
            return Err(Fail::new("a diagnostic changes on the wire", format!("{v}, {back:?}")));
        }
        Ok(())
    });
}

static LOG_LOCK: Mutex<()> = Mutex::new(());
static LOGGED: Mutex<Option<Vec<(log::Level, String)>>> = Mutex::new(None);

struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("tinymist_std") {
            if let Some(v) = &mut *LOGGED.lock().unwrap() {
                v.push((r.level(), r.args().to_string()));
            }
        }
    }
    fn flush(&self) {}
}

pub fn install_logger() {
    static LOGGER: Logger = Logger;
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
}
