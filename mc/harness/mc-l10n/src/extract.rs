//! N04: the extraction tool itself, run as a process on generated trees, with
//! every order of its parallel steps as a choice.

use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use mccore::explore::{Chooser, Config, Fail};
use mccore::report::Ctx;

/// A piece of source text and the messages it holds.
type Piece = (&'static str, &'static [(&'static str, &'static str)]);

const RS: [Piece; 24] = [
    ("tinymist_l10n::t!(\"k.a\", \"Text a\")", &[("k.a", "Text a")]),
    ("tinymist_l10n::bail!(\"k.b\", \"Text {x}\", x = y)", &[("k.b", "Text {x}")]),
    ("tinymist_l10n::t!(\n        \"k.c\",\n        \"Lines\",\n    )", &[("k.c", "Lines")]),
    ("tinymist_l10n::t!( \"k.d\"\t,\r\n\"é 汉字 😀 t\")", &[("k.d", "é 汉字 😀 t")]),
    ("tinymist_l10n::t!(\"k.e\", \"say \\\"hi\\\" \\\\\")", &[("k.e", "say \\\"hi\\\" \\\\")]),
    ("tinymist_l10n::t!(\"k.f\", \"\")", &[("k.f", "")]),
    ("tinymist_l10n::t!(\"k.g\", \"a, b) = [c]\", n = tinymist_l10n::t!(\"k.h\", \"in\"))", &[("k.g", "a, b) = [c]"), ("k.h", "in")]),
    ("tinymist_l10n::t!(\"k.a\", \"Text a\");tinymist_l10n::bail!(\"k.i\",\"i\")", &[("k.a", "Text a"), ("k.i", "i")]),
    ("ttinymist_l10n::t!(\"k.j\", \"after t\")", &[("k.j", "after t")]),
    ("::tinymist_l10n::t! (\"k.k\" , \"spaced\" )", &[("k.k", "spaced")]),
    ("tinymist_l10n::t!(\"k.l\", \"tinymist_l10n::\")", &[("k.l", "tinymist_l10n::")]),
    ("é\"\\\\\"'t' tinymist_l10n::t!(\"k.m\", \"m\\n\")", &[("k.m", "m\\n")]),
    ("", &[]),
    ("tinymist_l10n::t!(key, \"no literal\")", &[]),
    ("tinymist_l10n::t!(\"no.text\")", &[]),
    ("tinymist_l10n::t!(\"no.literal\", text)", &[]),
    ("tinymist_l10n::set_locale(\"en\", \"x\")", &[]),
    ("tinymist_l10n::tt!(\"k.no\", \"x\")", &[]),
    ("tinymist_l10n::bailt!(\"k.no\", \"x\")", &[]),
    ("other::t!(\"k.no\", \"x\")", &[]),
    ("use tinymist_l10n::{t, bail};", &[]),
    ("l10nMsg(\"typescript\")", &[]),
    ("tinymist_l10n:", &[]),
    ("fn t() -> &'static str { \"t\" }", &[]),
];
/// What may only stand at the end of a file.
const RS_LAST: [Piece; 6] = [
    ("tinymist_l10n::t!(\"k.no\", \"unclosed", &[]),
    ("tinymist_l10n::t!(\"k.no\", \"unclosed\\\"", &[]),
    ("tinymist_l10n::t!(\"k.no", &[]),
    ("tinymist_l10n::t!", &[]),
    ("tinymist_l10n::", &[]),
    ("tinymist_l10n::t!(\"k.z\", \"last\"", &[("k.z", "last")]),
];
const TS: [Piece; 14] = [
    ("l10nMsg(\"Hello\")", &[("\"Hello\"", "Hello")]),
    ("l10nMsg(\n  \"Open {name}\",\n  { name })", &[("\"Open {name}\"", "Open {name}")]),
    ("vscode.window.show(l10nMsg(\"a\"), l10nMsg(\"b\"))", &[("\"a\"", "a"), ("\"b\"", "b")]),
    ("l10nMsg (\"say \\\"hi\\\" \\\\\")", &[("\"say \\\"hi\\\" \\\\\"", "say \\\"hi\\\" \\\\")]),
    ("l10nMsg(\"汉 l 😀\")", &[("\"汉 l 😀\"", "汉 l 😀")]),
    ("l10nMsg(\"nested \" + l10nMsg(\"inner\"))", &[("\"nested \"", "nested "), ("\"inner\"", "inner")]),
    ("l10nMsg(\"l10nMsg\")", &[("\"l10nMsg\"", "l10nMsg")]),
    ("`${l10nMsg(\"Hello\")}`", &[("\"Hello\"", "Hello")]),
    ("", &[]),
    ("l10nMsg(key)", &[]),
    ("l10nMsgs(\"no\")", &[]),
    ("export function l10nMsg(s: string) {}", &[]),
    ("tinymist_l10n::t!(\"k\", \"rust\")", &[]),
    ("l10nMs(\"no\")", &[]),
];
const TS_LAST: [Piece; 4] = [("l10nMsg(\"unclosed", &[]), ("l10nMsg(", &[]), ("l10nMsg", &[]), ("l10nMsg(\"end\"", &[("\"end\"", "end")])];

fn tool() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("tinymist-l10n-mc")
}

fn scratch_root() -> PathBuf {
    // Where the directory order follows the order of creation, if possible.
    let shm = Path::new("/dev/shm");
    let probe = shm.join(format!("mc-n04-{}", std::process::id()));
    let root = if std::fs::create_dir(&probe).is_ok() { probe } else { std::env::temp_dir().join(format!("mc-n04-{}", std::process::id())) };
    std::fs::create_dir_all(&root).unwrap();
    root
}

static SEQ: AtomicU64 = AtomicU64::new(0);

/// A directory that removes itself.
struct Dir(PathBuf);
impl Dir {
    fn new(root: &Path) -> Dir {
        let d = root.join(SEQ.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    ok: bool,
    output: Option<Vec<u8>>,
    alternatives: Vec<usize>,
    stderr: String,
}

/// Runs the tool with the given order of its parallel steps.
fn run(dir: &Path, kind: &str, output: &Path, order: &[usize]) -> Ran {
    let trace = dir.parent().unwrap().join(format!("trace-{}", SEQ.fetch_add(1, Ordering::Relaxed)));
    let list: Vec<String> = order.iter().map(usize::to_string).collect();
    let o = Command::new(tool())
        .args(["--kind", kind, "--dir"])
        .arg(dir)
        .arg("--output")
        .arg(output)
        .env("MC_RAYON", list.join(","))
        .env("MC_RAYON_TRACE", &trace)
        .output()
        .expect("the extraction tool");
    let alternatives = std::fs::read_to_string(&trace).unwrap_or_default().lines().map(|l| l.parse().unwrap()).collect();
    let _ = std::fs::remove_file(&trace);
    Ran { ok: o.status.success(), output: std::fs::read(output).ok(), alternatives, stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
}

type Cat = BTreeMap<String, BTreeMap<String, String>>;

fn read(text: &str) -> Option<Cat> {
    let mut out = Cat::new();
    let mut key = None;
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
        } else if let Some(k) = line.strip_prefix('[') {
            key = Some(k.strip_suffix(']')?.to_string());
        } else {
            let (l, t) = line.split_once('=')?;
            if out.entry(key.clone()?).or_default().insert(l.trim().into(), t.trim().into()).is_some() {
                return None;
            }
        }
    }
    Some(out)
}

/// Whether the output is that of the messages found over what was there.
fn judge(ran: &Ran, found: &[(String, String)], before: &Cat, what: &str) -> Result<Cat, Fail> {
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{what}: {m}")));
    if !ran.ok {
        return bad("the extraction fails", ran.stderr.clone());
    }
    let text = ran.output.clone().map(|o| String::from_utf8_lossy(&o).into_owned());
    let Some(got) = text.as_deref().and_then(read) else { return bad("the output is no catalogue", format!("{text:?}")) };
    for (k, t) in found {
        let texts: Vec<String> = found.iter().filter(|f| f.0 == *k).map(|f| format!("\"{}\"", f.1)).collect();
        match got.get(k).and_then(|m| m.get("en")) {
            None => return bad("a message is not extracted", format!("{k:?} {t:?}, got {got:?}")),
            Some(en) if !texts.contains(en) => return bad("a message is extracted with another text", format!("{k:?}: {en:?}, not of {texts:?}")),
            _ => {}
        }
    }
    for (k, m) in &got {
        if !found.iter().any(|f| f.0 == *k) {
            return bad("something else is extracted", format!("{k:?} {m:?}"));
        }
        let mut kept = before.get(k).cloned().unwrap_or_default();
        kept.remove("en");
        let mut others = m.clone();
        others.remove("en");
        if others != kept {
            return bad("translations are not kept", format!("{k:?}: {others:?}, before {kept:?}"));
        }
    }
    Ok(got)
}

fn owned(p: &Piece) -> Vec<(String, String)> {
    p.1.iter().map(|(k, t)| (k.to_string(), t.to_string())).collect()
}

fn pieces(kind: &str) -> (&'static [Piece], &'static [Piece]) {
    if kind == "rs" {
        (&RS, &RS_LAST)
    } else {
        (&TS, &TS_LAST)
    }
}

/// Sources with two or three pieces in a row.
fn calls(ch: &mut Chooser, root: &Path, three: bool) -> Result<(), Fail> {
    let kind = *ch.pick("kind", &["rs", "ts"]);
    let (all, last) = pieces(kind);
    let mut text = String::new();
    let mut found = vec![];
    let sep = *ch.pick("between", &["\n", ""]);
    for _ in 0..if three { 2 } else { 1 } {
        let p = ch.pick("piece", all);
        text.push_str(p.0);
        text.push_str(sep);
        found.extend(owned(p));
    }
    let at = ch.choose("last", all.len() + last.len());
    let p = if at < all.len() { &all[at] } else { &last[at - all.len()] };
    text.push_str(p.0);
    found.extend(owned(p));
    // An identifier must not run into the next piece.
    if sep.is_empty() && text.contains("tinymist_l10n:tinymist") && !text.contains("tinymist_l10n::tinymist") {
        text = text.replace("tinymist_l10n:tinymist", "tinymist_l10n: tinymist");
    }
    let d = Dir::new(root);
    let src = d.0.join("src");
    std::fs::create_dir(&src).unwrap();
    std::fs::write(src.join(format!("file.{kind}")), &text).unwrap();
    let ran = run(&src, kind, &d.0.join("out.toml"), &[]);
    let got = judge(&ran, &found, &Cat::new(), &format!("{text:?}"))?;
    ch.note(|| format!("{text:?}: {got:?}"));
    ch.observe(format!("{got:?}"));
    Ok(())
}

const PLACES: [&str; 4] = ["b", "sub/a", "sub/deep.rs/d", "a"];
const BEFORE: &str = "\n# by hand\n[k.a]\nen = \"Old\"\nzh = \"甲\"\n[gone]\nen = \"gone\"\nzh = \"去\"\n[\"Hello\"]\nen = \"Hello\"\nfr = \"Salut\"\n";

/// Trees of files, under every order within the bound.
fn trees(ch: &mut Chooser, root: &Path, places: usize, memo: &Mutex<HashMap<Vec<usize>, Vec<u8>>>) -> Result<(), Fail> {
    let kind = *ch.pick("kind", &["rs", "ts"]);
    let contents: &[(&str, &[(&str, &str)])] = if kind == "rs" {
        &[
            ("tinymist_l10n::t!(\"k.a\", \"One\")", &[("k.a", "One")]),
            ("tinymist_l10n::t!(\"k.a\", \"Two\"); tinymist_l10n::t!(\"k.b\", \"B\")", &[("k.a", "Two"), ("k.b", "B")]),
            ("tinymist_l10n::t!(\"k.b\", \"B\"); tinymist_l10n::bail!(\"k.c\", \"C\"); tinymist_l10n::t!(\"k.a\", \"One\")", &[("k.b", "B"), ("k.c", "C"), ("k.a", "One")]),
        ]
    } else {
        &[
            ("l10nMsg(\"Hello\")", &[("\"Hello\"", "Hello")]),
            ("l10nMsg(\"Hello\"); l10nMsg(\"World\")", &[("\"Hello\"", "Hello"), ("\"World\"", "World")]),
            ("l10nMsg(\"A\"); l10nMsg(\"B\"); l10nMsg(\"World\")", &[("\"A\"", "A"), ("\"B\"", "B"), ("\"World\"", "World")]),
        ]
    };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut found = vec![];
    for p in &PLACES[..places] {
        // Absent, or with one of the contents.
        let c = ch.choose("file", contents.len() + 1);
        if c > 0 {
            files.push((format!("{p}.{kind}"), contents[c - 1].0.into()));
            found.extend(owned(&contents[c - 1]));
        }
    }
    let before = ch.choose("before", 3);
    if ch.choose("others", 2) == 1 {
        // Files that are not sources of this kind, or cannot be read as text.
        let call = if kind == "rs" { "tinymist_l10n::t!(\"k.no\", \"no\")" } else { "l10nMsg(\"no\")" };
        for n in [format!("{kind}"), format!("x.{kind}x"), "x.txt".into(), format!("x.{kind}.bak"), format!("sub/x.{}", if kind == "rs" { "ts" } else { "rs" })] {
            files.push((n, call.into()));
        }
        files.push((format!("binary.{kind}"), [call.as_bytes(), b"\xff\xfe"].concat()));
        files.push((format!("sub/empty.{kind}"), vec![]));
    }
    let id: Vec<usize> = ch.choices();
    let n = files.len().min(4);
    let rot = if n > 1 { ch.deviate("creation order", n) } else { 0 };
    files.rotate_left(rot);
    if rot % 2 == 1 {
        files.reverse();
    }
    let d = Dir::new(root);
    let src = d.0.join("src");
    std::fs::create_dir(&src).unwrap();
    for (f, c) in &files {
        let p = src.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, c).unwrap();
    }
    let out = d.0.join("out.toml");
    let was = match before {
        0 => None,
        1 => Some(""),
        _ => Some(BEFORE),
    };
    let fill = || match was {
        Some(t) => std::fs::write(&out, t).unwrap(),
        None => drop(std::fs::remove_file(&out)),
    };
    fill();
    let plan: Vec<usize> = ch.planned().to_vec();
    let ran = run(&src, kind, &out, &plan);
    let mut order = vec![];
    for &n in &ran.alternatives {
        order.push(ch.deviate("rayon order", n));
    }
    let names: Vec<_> = files.iter().map(|f| &f.0).collect();
    let what = format!("{names:?} created in this order over output {before}, orders {order:?}");
    let got = judge(&ran, &found, &was.and_then(read).unwrap_or_default(), &what)?;
    ch.note(|| format!("{what}: {got:?}"));
    ch.observe((&id, &ran.output));
    let mut first = memo.lock().unwrap().get(&id).cloned();
    if first.is_none() && (rot > 0 || order.iter().any(|o| *o > 0)) {
        fill();
        first = run(&src, kind, &out, &[]).output;
    }
    match first {
        None => {
            memo.lock().unwrap().insert(id, ran.output.clone().unwrap());
        }
        Some(f) if Some(&f) != ran.output.as_ref() => {
            return Err(Fail::new("the output depends on the order", format!("{what}: {:?}, otherwise {:?}", String::from_utf8_lossy(ran.output.as_ref().unwrap()), String::from_utf8_lossy(&f))))
        }
        _ => {}
    }
    if rot == 0 && order.iter().all(|o| *o == 0) {
        // A second run over its own output changes nothing.
        let again = run(&src, kind, &out, &[]);
        if !again.ok || again.output != ran.output {
            return Err(Fail::new("a second run changes the output", format!("{what}: {:?}", again.output.map(|o| String::from_utf8_lossy(&o).into_owned()))));
        }
    }
    Ok(())
}

pub fn extraction(ctx: &mut Ctx) {
    let root = scratch_root();
    let three = ctx.thorough();
    ctx.explore_with(
        "calls",
        "sources",
        &format!("every source of {} pieces of {} kinds for Rust and {} for TypeScript, calls in all forms and what only looks like them", if three { 3 } else { 2 }, RS.len() + RS_LAST.len(), TS.len() + TS_LAST.len()),
        Config { bound: 0, ..Config::default() },
        |ch| calls(ch, &root, three),
    );
    let mut sweep = |name: &str, places: usize, bound: u32| {
        let memo = Mutex::new(HashMap::new());
        ctx.explore_with(
            name,
            "schedules",
            &format!("every tree with up to {places} source files of three contents each, with and without files of other kinds, over three outputs; creation orders and orders of the parallel steps with up to {bound} deviations"),
            Config { bound, ..Config::default() },
            |ch| trees(ch, &root, places, &memo),
        );
    };
    sweep("trees", 3, 1);
    if three {
        sweep("larger trees", 4, 1);
        sweep("trees with further orders", 3, 2);
    }
    let _ = std::fs::remove_dir_all(&root);
}
