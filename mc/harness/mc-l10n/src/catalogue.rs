//! N03: catalogue files and their updates, against a reference reader and a
//! reference update.

use std::collections::BTreeMap;
use std::path::PathBuf;

use mccore::explore::{Chooser, Config, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, quietly, End};
use tinymist_l10n::{deserialize, load_translations, serialize_translations, update_disk_translations, update_translations, TranslationMapSet};

type Cat = BTreeMap<String, BTreeMap<String, String>>;

fn plain(c: &TranslationMapSet) -> Cat {
    c.iter().map(|(k, v)| (k.clone(), v.iter().map(|(k, v)| (k.clone(), v.clone())).collect())).collect()
}

fn transposed(c: &Cat) -> Cat {
    let mut out = Cat::new();
    for (k, m) in c {
        for (l, t) in m {
            out.entry(l.clone()).or_default().insert(k.clone(), t.clone());
        }
    }
    out
}

/// Builds the catalogue by inserting in the given order.
fn hashed(c: &Cat, order: &[usize], room: usize) -> TranslationMapSet {
    let keys: Vec<_> = c.keys().collect();
    let mut out = TranslationMapSet::default();
    out.reserve(room);
    for &i in order {
        let m = &c[keys[i]];
        let mut inner = rustc_hash::FxHashMap::default();
        inner.reserve(room);
        if room % 2 == 0 {
            inner.extend(m.iter().map(|(k, v)| (k.clone(), v.clone())));
        } else {
            inner.extend(m.iter().rev().map(|(k, v)| (k.clone(), v.clone())));
        }
        out.insert(keys[i].clone(), inner);
    }
    out
}

fn unquoted(text: &str) -> Option<String> {
    if text.starts_with('"') {
        serde_json::from_str(text).ok()
    } else {
        Some(text.to_string())
    }
}

/// Runs `f` with what rayon leaves open decided by the explorer.
fn par<T: Send + 'static>(ch: &mut Chooser, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let r = rt::run(ch, rt::Opts::default(), f);
    match (r.end, r.value) {
        (End::Done { .. }, Some(v)) => Ok(v),
        (e, _) => Err(Fail::new("a catalogue function does not return", format!("{e:?} {:?}", r.panics))),
    }
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for o in orders(n - 1) {
        for at in 0..n {
            let mut p = o.clone();
            p.insert(at, n - 1);
            out.push(p);
        }
    }
    out
}

const KEYS: [&str; 6] = ["k", "a.b-c", "\"quoted key\"", "ü k", "k]", "a=b"];
const LANGS: [&str; 3] = ["fr", "zh", "zh-tw"];
const TEXTS: [&str; 9] = [
    "\"\"",
    "\"text\"",
    "\"a = [b] # c\"",
    "\"\\\"q\\\" \\n\\t\\\\\"",
    "\"ünïcode 汉字 😀\"",
    "\" spaces \"",
    "\"\\u00e9\\/\"",
    "bare text",
    "\"{name} {other}\"",
];

fn round_trip(ch: &mut Chooser, max_keys: usize) -> Result<(), Fail> {
    let n = ch.choose("keys", max_keys + 1);
    let first = ch.choose("first key", KEYS.len());
    let mut cat = Cat::new();
    for i in 0..n {
        let langs = if max_keys > 2 { ch.choose("languages", 8) } else { *ch.pick("languages", &[0, 2, 5, 7]) };
        let t = ch.choose("text", TEXTS.len());
        let mut m = BTreeMap::from([("en".to_string(), TEXTS[t].to_string())]);
        for (j, l) in LANGS.iter().enumerate() {
            if langs >> j & 1 == 1 {
                m.insert(l.to_string(), TEXTS[(t + j + 1) % TEXTS.len()].to_string());
            }
        }
        cat.insert(KEYS[(first + i) % KEYS.len()].to_string(), m);
    }
    let mut text: Option<String> = None;
    for (k, o) in orders(n).into_iter().enumerate() {
        for room in [0, 1, 30] {
            let c = hashed(&cat, &o, room);
            let s = quietly(|| serialize_translations(c)).map_err(|m| Fail::new("writing panics", format!("{cat:?}: {m}")))?;
            if text.as_ref().is_some_and(|t| *t != s) {
                return Err(Fail::new("the text depends on the order of insertion", format!("{cat:?}, order {k}: {s:?}, before {text:?}")));
            }
            text = Some(s);
        }
    }
    let text = text.unwrap();
    let t2 = text.clone();
    let (by_key, by_lang, loaded) = par(ch, move || (deserialize(&t2, true), deserialize(&t2, false), load_translations(&t2)))?;
    ch.note(|| text.clone());
    ch.observe(&text);
    let bad = |what: &str, got: String| Err(Fail::new(what, format!("{cat:?} written as {text:?} is read as {got}")));
    match by_key {
        Ok(c) if plain(&c) == cat => {}
        c => return bad("a catalogue does not come back", format!("{c:?}")),
    }
    match by_lang {
        Ok(c) if plain(&c) == transposed(&cat) => {}
        c => return bad("a catalogue by languages does not come back", format!("{c:?}")),
    }
    let mut want = transposed(&cat);
    for m in want.values_mut() {
        for t in m.values_mut() {
            *t = unquoted(t).unwrap();
        }
    }
    match loaded {
        Ok(c) if plain(&c) == want => {}
        c => return bad("a loaded catalogue has other messages", format!("{c:?}")),
    }
    // The text of what was read is the same text.
    let again = serialize_translations(deserialize(&text, true).unwrap());
    if again != text {
        return bad("rewriting a catalogue changes it", again);
    }
    Ok(())
}

/// The reference update.
fn updated(cat: &Cat, found: &[(String, String)]) -> Cat {
    let mut out = Cat::new();
    for (k, v) in found {
        let m = out.entry(k.clone()).or_insert_with(|| cat.get(k).cloned().unwrap_or_default());
        m.insert("en".into(), v.clone());
    }
    out
}

/// Messages of a key that is found with several texts are its alternatives.
fn alike(got: &Cat, cat: &Cat, found: &[(String, String)]) -> bool {
    let want = updated(cat, found);
    got.len() == want.len()
        && got.iter().all(|(k, m)| {
            let Some(w) = want.get(k) else { return false };
            let (mut m, mut w) = (m.clone(), w.clone());
            let (Some(en), _) = (m.remove("en"), w.remove("en")) else { return false };
            m == w && found.contains(&(k.clone(), en))
        })
}

/// A history of source scans and translators' edits over one catalogue, in
/// memory and in a file.
fn history(ch: &mut Chooser, depth: usize, dir: &PathBuf) -> Result<(), Fail> {
    let keys = ["a", "b", "c.d"];
    let path = dir.join("out.toml");
    let _ = std::fs::remove_file(&path);
    let mut cat = Cat::new();
    match ch.choose("before", 4) {
        0 => {}
        1 => std::fs::write(&path, "").unwrap(),
        2 => {
            std::fs::write(&path, "# by hand\r\n\r\n  [a]\r\nzh = \"早\"\nen=\"old\"\n\n[z]\nen = \"z\"\nfr = \"zut\"").unwrap();
            cat = Cat::from([
                ("a".into(), [("zh".into(), "\"早\"".into()), ("en".into(), "\"old\"".into())].into()),
                ("z".into(), [("en".into(), "\"z\"".into()), ("fr".into(), "\"zut\"".into())].into()),
            ]);
        }
        _ => {
            std::fs::write(&path, "[b]\nfr = \"sans source\"\n").unwrap();
            cat = Cat::from([("b".into(), [("fr".into(), "\"sans source\"".into())].into())]);
        }
    }
    let mut memory = TranslationMapSet::default();
    for (k, m) in &cat {
        memory.insert(k.clone(), m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    }
    let bad = |sig: &str, m: String| Err(Fail::new(sig, m));
    for step in 0..depth {
        match ch.choose("step", 2) {
            0 => {
                // A scan finds a subset of the keys, maybe one of them twice.
                let which = ch.choose("found", 8);
                let text = ch.choose("texts", 2);
                let mut found: Vec<(String, String)> = vec![];
                for (i, k) in keys.iter().enumerate() {
                    if which >> i & 1 == 1 {
                        found.push((k.to_string(), format!("\"{k} {text}\"")));
                    }
                }
                match ch.choose("repeated", 3) {
                    1 if !found.is_empty() => found.push(found[0].clone()),
                    2 if !found.is_empty() => found.push((found[0].0.clone(), "\"another\"".into())),
                    _ => {}
                }
                let (mut results, before) = (vec![], std::fs::read(&path).ok());
                let mut tries = orders(found.len());
                tries.truncate(6);
                for o in tries {
                    let list: Vec<_> = o.iter().map(|i| found[*i].clone()).collect();
                    match &before {
                        Some(b) => std::fs::write(&path, b).unwrap(),
                        None => drop(std::fs::remove_file(&path)),
                    }
                    let (p2, l2) = (path.clone(), list.clone());
                    let r = par(ch, move || update_disk_translations(l2, &p2).map_err(|e| e.to_string()))?;
                    if let Err(e) = r {
                        return bad("an update fails", format!("{found:?} over {cat:?}: {e}"));
                    }
                    results.push(std::fs::read_to_string(&path).unwrap());
                    let mut m = memory.clone();
                    update_translations(list, &mut m);
                    if !alike(&plain(&m), &cat, &found) {
                        return bad("an update in memory is wrong", format!("{found:?} over {cat:?} gives {m:?}"));
                    }
                }
                if results.iter().any(|r| *r != results[0]) {
                    return bad("an update depends on the order of the messages", format!("{found:?} over {cat:?} gives {results:?}"));
                }
                let got = plain(&deserialize(&results[0], true).map_err(|e| Fail::new("an update writes what it cannot read", format!("{results:?}: {e}")))?);
                if !alike(&got, &cat, &found) {
                    return bad("an update is wrong", format!("{found:?} over {cat:?} gives {got:?}"));
                }
                if serialize_translations(deserialize(&results[0], true).unwrap()) != results[0] {
                    return bad("an update is not stable", format!("{results:?}"));
                }
                cat = got;
            }
            _ => {
                // A translator adds or changes a text of an existing message.
                let have: Vec<String> = cat.iter().filter(|c| c.1.contains_key("en")).map(|c| c.0.clone()).collect();
                if have.len() < cat.len() || have.is_empty() {
                    continue;
                }
                let k = ch.pick("translated", &have).clone();
                let l = *ch.pick("language", &["zh", "aa"]);
                cat.get_mut(&k).unwrap().insert(l.into(), format!("\"{l} {step}\""));
                let text = serialize_translations(hashed(&cat, &(0..cat.len()).collect::<Vec<_>>(), 0));
                std::fs::write(&path, text).unwrap();
            }
        }
        memory = TranslationMapSet::default();
        for (k, m) in &cat {
            memory.insert(k.clone(), m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
        }
        ch.note(|| format!("{cat:?}"));
        ch.observe(format!("{cat:?}"));
    }
    Ok(())
}

#[derive(Debug, PartialEq)]
enum Verdict {
    Bad,
    Good(Cat),
    /// The statement does not say: messages that belong to no key, or several
    /// texts for one.
    Either(Cat),
}

/// The reference reader.
fn reading(input: &str) -> Verdict {
    let (mut key, mut out, mut either) = (None, Cat::new(), false);
    for line in input.split('\n') {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(r) = line.strip_prefix('[') {
            let Some(k) = r.strip_suffix(']') else { return Verdict::Bad };
            key = Some(k.to_string());
            either |= out.contains_key(k) || k.is_empty();
        } else {
            let Some((l, t)) = line.split_once('=') else { return Verdict::Bad };
            either |= key.is_none() || l.trim().is_empty();
            let m = out.entry(key.clone().unwrap_or_default()).or_default();
            either |= m.insert(l.trim().into(), t.trim().into()).is_some();
        }
    }
    if either {
        Verdict::Either(out)
    } else {
        Verdict::Good(out)
    }
}

fn judge(input: &str, dir: Option<&PathBuf>) -> Result<Verdict, Fail> {
    let want = reading(input);
    let s = |sig: &str, m: String| Fail::new(sig, format!("{input:?}: {m}"));
    let q = |f: &dyn Fn() -> anyhow::Result<TranslationMapSet>| quietly(|| f().map(|c| plain(&c)).map_err(|e| e.to_string())).map_err(|m| s("reading panics", m));
    let by_key = q(&|| deserialize(input, true))?;
    let by_lang = q(&|| deserialize(input, false))?;
    let loaded = q(&|| load_translations(input))?;
    match (&want, &by_key, &by_lang) {
        (Verdict::Bad, Ok(c), _) | (Verdict::Bad, _, Ok(c)) => return Err(s("a malformed file is accepted", format!("{c:?}"))),
        (Verdict::Good(_), Err(e), _) | (Verdict::Good(_), _, Err(e)) => return Err(s("a good file is refused", e.clone())),
        (Verdict::Good(c) | Verdict::Either(c), Ok(k), Ok(l)) if k != c || *l != transposed(c) => {
            return Err(s("a file is misread", format!("{k:?} and {l:?}")))
        }
        _ => {}
    }
    match &want {
        Verdict::Bad if loaded.is_ok() => return Err(s("a malformed file is loaded", format!("{loaded:?}"))),
        Verdict::Good(c) | Verdict::Either(c) => {
            let mut t = transposed(c);
            let good = t.values_mut().flat_map(|m| m.values_mut()).fold(true, |g, t| match unquoted(t) {
                Some(u) => {
                    *t = u;
                    g
                }
                None => false,
            });
            match &loaded {
                Ok(l) if !good || *l != t => return Err(s("a file is loaded wrongly", format!("{l:?}"))),
                Err(e) if good && matches!(want, Verdict::Good(_)) => return Err(s("a good file is not loaded", e.clone())),
                _ => {}
            }
        }
        _ => {}
    }
    if let Some(dir) = dir {
        // A file that is refused stays as it was.
        let path = dir.join("in.toml");
        std::fs::write(&path, input).unwrap();
        let r = quietly(|| update_disk_translations(vec![("new".into(), "\"n\"".into())], &path).is_ok()).map_err(|m| s("updating panics", m))?;
        let after = std::fs::read_to_string(&path).unwrap();
        match (&want, r) {
            (Verdict::Bad, true) => return Err(s("a malformed file is updated", after)),
            (Verdict::Good(_), false) => return Err(s("a good file is not updated", after)),
            (_, false) if after != input => return Err(s("a refused file is changed", after)),
            _ => {}
        }
    }
    Ok(want)
}

pub fn catalogues(ctx: &mut Ctx) {
    let keys = ctx.by(2, 3);
    ctx.explore_with(
        "round trips",
        "catalogues",
        &format!("every catalogue of up to {keys} neighbours among the keys {KEYS:?}, sets of languages beside en and {} texts, every order of insertion with three sizes of the tables, read back with up to one other order of the parallel steps", TEXTS.len()),
        Config { bound: 1, max_execs: ctx.by(4_000_000, 40_000_000), ..Config::default() },
        |ch| round_trip(ch, keys),
    );

    let scratch = std::env::temp_dir().join(format!("mc-n03-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let depth = ctx.by(2, 3);
    ctx.explore_with(
        "updates",
        "histories",
        &format!("every history of {depth} scans and edits over four files, with every order of the messages found"),
        Config { bound: 0, ..Config::default() },
        |ch| {
            let dir = scratch.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
            std::fs::create_dir_all(&dir).unwrap();
            history(ch, depth, &dir)
        },
    );

    ctx.explore("unreadable files", "inputs", "updates of files that are no text, and of directories", 0, |ch| {
        let dir = scratch.join(format!("u{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join("locale.toml");
        let old: Option<&[u8]> = match ch.choose("file", 4) {
            0 => Some(b"\n[a]\nen = \"a\"\nzh = \"\xb0\xa1\"\n"),
            1 => Some(b"\xff\xfe[\0a\0]\0"),
            2 => Some(b"\n[a]\nen = \"a\"\nzh = \"b\"\n\x80"),
            _ => None,
        };
        match old {
            Some(b) => std::fs::write(&path, b).unwrap(),
            None => std::fs::create_dir(&path).unwrap(),
        }
        let found: Vec<(String, String)> = ["a", "b"][..ch.choose("messages", 3)].iter().map(|k| (k.to_string(), format!("\"{k}\""))).collect();
        let (p2, f2) = (path.clone(), found.clone());
        let r = quietly(|| update_disk_translations(f2, &p2).is_ok()).map_err(|m| Fail::new("updating panics", m))?;
        if r {
            return Err(Fail::new("a file that cannot be read is updated", format!("{old:?} with {found:?}")));
        }
        if old.is_some_and(|b| std::fs::read(&path).ok().as_deref() != Some(b)) {
            return Err(Fail::new("a refused file is changed", format!("{old:?} with {found:?}")));
        }
        ch.observe((old, found.len()));
        Ok(())
    });

    // Malformed and odd files.
    let tokens = ["[", "]", "=", "\"", "a", "\n", "#", " ", "ü", "\\", "en"];
    let depth = ctx.by(5u32, 7);
    let k = tokens.len() as u64;
    let n: u64 = (0..=depth).map(|d| k.pow(d)).sum();
    ctx.inputs("token soup", &format!("every file of at most {depth} tokens of {tokens:?}"), n, |i, o| {
        let (mut i, mut d) = (i, 0);
        while i >= k.pow(d) {
            i -= k.pow(d);
            d += 1;
        }
        let mut s = String::new();
        for _ in 0..d {
            s.push_str(tokens[(i % k) as usize]);
            i /= k;
        }
        let v = judge(&s, None)?;
        if matches!(v, Verdict::Good(_)) {
            o.nontrivial();
        }
        o.sample(|| format!("{s:?}: {v:?}"));
        o.outcome(format!("{v:?}"));
        Ok(())
    });

    let lines = [
        "[a]", "[b.c]", "[a", "a]", "[]", "en = \"x\"", "zh=\"\\u6c49\"", "fr = \"un\"closed\"", "fr = \"open", "en", "= \"x\"", "# [c", "", "  [a]\t", "en = x = y", "\ten\t=\t\"\\q\"",
        "\u{feff}[a]", "[a] # c",
    ];
    let depth = ctx.by(3u32, 4);
    let k = lines.len() as u64;
    let ends = 3u64;
    ctx.inputs(
        "lines",
        &format!("every file of {depth} lines of {} kinds, good and malformed, with three kinds of line ends; each is also updated in place", lines.len()),
        k.pow(depth) * ends,
        |i, o| {
            let (mut i, e) = (i / ends, i % ends);
            let mut s = String::new();
            for j in 0..depth {
                s.push_str(lines[(i % k) as usize]);
                i /= k;
                s.push_str(["\n", "\r\n", if j + 1 == depth { "" } else { "\n" }][e as usize]);
            }
            let dir = scratch.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
            std::fs::create_dir_all(&dir).unwrap();
            let v = judge(&s, Some(&dir))?;
            if matches!(v, Verdict::Good(_)) {
                o.nontrivial();
            }
            o.sample(|| format!("{s:?}: {v:?}"));
            o.outcome(format!("{v:?}"));
            Ok(())
        },
    );
    std::fs::remove_dir_all(&scratch).unwrap();
}
