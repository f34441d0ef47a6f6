//! N01: messages and their placeholders, against a reference of its own.

use std::borrow::Cow;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::quietly;
use tinymist_l10n::{t, t_with_args, t_without_args, Arg, DebugL10n};

/// What a message may become. Where one brace follows another without closing
/// the first, the statement does not say which of them opens the placeholder:
/// `outer` takes the first and otherwise the last before the closing one.
fn reference(msg: &str, args: &[(&str, String)], outer: bool) -> String {
    let mut out = String::new();
    let mut rest = msg;
    while let Some(i) = rest.find('{') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let Some(end) = rest.find('}') else { break };
        let start = if outer { 0 } else { rest[..end].rfind('{').unwrap() };
        out.push_str(&rest[..start]);
        match args.iter().find(|a| a.0 == &rest[start + 1..end]) {
            Some(a) => out.push_str(&a.1),
            None => out.push_str(&rest[start..=end]),
        }
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    out
}

fn fix(s: &str) -> &'static str {
    // The messages outlive every use of them here.
    unsafe { std::mem::transmute(s) }
}

fn check(msg: &str, args: &[(&'static str, Arg)], texts: &[(&str, String)]) -> Result<String, Fail> {
    let got = quietly(|| t_with_args("no.such.key", fix(msg), args).into_owned())
        .map_err(|m| Fail::new("translating panics", format!("{msg:?}: {m}")))?;
    let (a, b) = (reference(msg, texts, true), reference(msg, texts, false));
    if got != a && got != b {
        let keep = texts.iter().fold(msg.to_string(), |m, t| m.replace(&format!("{{{}}}", t.0), ""));
        let sig = if keep.contains('{') { "text with other braces changes" } else { "a placeholder is not replaced exactly" };
        return Err(Fail::new(sig, format!("{msg:?} with {texts:?} becomes {got:?}, not {a:?}")));
    }
    let plain = t_without_args("no.such.key", fix(msg));
    if plain != msg || !matches!(plain, Cow::Borrowed(_)) && plain != msg {
        return Err(Fail::new("a message without arguments changes", format!("{msg:?} becomes {plain:?}")));
    }
    Ok(got)
}

pub fn messages(ctx: &mut Ctx) {
    let alphabet = ["{", "}", "a", "ab", " ", "ü", "😀\n"];
    let depth = ctx.by(7u32, 8);
    let k = alphabet.len() as u64;
    let n: u64 = (0..=depth).map(|d| k.pow(d)).sum();
    ctx.inputs(
        "messages",
        &format!("every message of at most {depth} symbols of {alphabet:?} with the arguments a, ab and one that is not named; one argument text looks like a placeholder itself"),
        n,
        |i, o| {
            let (mut i, mut d) = (i, 0);
            while i >= k.pow(d) {
                i -= k.pow(d);
                d += 1;
            }
            let mut msg = String::new();
            for _ in 0..d {
                msg.push_str(alphabet[(i % k) as usize]);
                i /= k;
            }
            let args = [("a", Arg::Str("{ab}".into())), ("ab", Arg::Int(-7)), ("z", Arg::Str("z".into()))];
            let got = check(&msg, &args, &[("a", "{ab}".into()), ("ab", "-7".into()), ("z", "z".into())])?;
            if got != msg {
                o.nontrivial();
            }
            o.sample(|| format!("{msg:?} -> {got:?}"));
            o.outcome(&got);
            Ok(())
        },
    );

    let pieces = ["{name}", "{count}", "{n_2}", "{}", "{other}", "text", "{ name}", "{Name}", "{name", "name}", "}", "é.", "{ü}"];
    let depth = ctx.by(5u32, 6);
    let k = pieces.len() as u64;
    ctx.inputs(
        "placeholders",
        &format!("every message of {depth} pieces of {pieces:?}"),
        k.pow(depth),
        |i, o| {
            let mut i = i;
            let mut msg = String::new();
            for _ in 0..depth {
                msg.push_str(pieces[(i % k) as usize]);
                i /= k;
            }
            let args = [
                ("name", Arg::Str("ä{count}{name}".into())),
                ("count", Arg::Int(i64::MIN)),
                ("n_2", Arg::Float(0.5)),
                ("ü", Arg::Str("".into())),
            ];
            let texts = [
                ("name", "ä{count}{name}".to_string()),
                ("count", i64::MIN.to_string()),
                ("n_2", "0.5".to_string()),
                ("ü", String::new()),
            ];
            let got = check(&msg, &args, &texts)?;
            o.sample(|| format!("{msg:?} -> {got:?}"));
            o.outcome(&got);
            Ok(())
        },
    );

    ctx.explore("arguments", "inputs", "every kind and order of up to three arguments, through the functions and the macro", 0, |ch: &mut Chooser| {
        const NAMES: [&str; 3] = ["x", "y", "x_y"];
        let texts = ["", "{y}", "{", "}", "{x}{y}", "ß\"\\"];
        let n = ch.choose("arguments", 4);
        let mut args = vec![];
        let mut want = vec![];
        let first = ch.choose("first", 3);
        for j in 0..n {
            let name = NAMES[(first + j) % 3];
            match ch.choose("kind", texts.len() + 5) {
                0 => {
                    args.push((name, Arg::Int(0)));
                    want.push((name, "0".to_string()));
                }
                1 => {
                    args.push((name, Arg::Float(-1.25)));
                    want.push((name, "-1.25".into()));
                }
                2 => {
                    args.push((name, Arg::Int(i64::MAX)));
                    want.push((name, i64::MAX.to_string()));
                }
                3 => {
                    args.push((name, "a\"\n".debug_l10n()));
                    want.push((name, format!("{:?}", "a\"\n")));
                }
                4 => {
                    args.push((name, Some(3).debug_l10n()));
                    want.push((name, "Some(3)".into()));
                }
                k => {
                    args.push((name, Arg::from(texts[k - 5])));
                    want.push((name, texts[k - 5].into()));
                }
            }
        }
        let mut out = vec![];
        for msg in ["{x}{y}{x_y}", "{y} {x} {y}", "", "{x", "{x_y}{z}", "ü{x}ü{y}ü"] {
            out.push(check(msg, &args, &want)?);
        }
        ch.note(|| format!("{want:?}: {out:?}"));
        ch.observe(&out);
        // The macro names its arguments itself.
        let owned = format!("o{n}");
        let got = [
            t!("k", "m {x}").into_owned(),
            t!("k", "m {x} {y}", x = "1".into(), y = (&owned).into()).into_owned(),
            t!("k", "m {y}{x}", x = Arg::Int(1), y = n.debug_l10n(),).into_owned(),
        ];
        let want = ["m {x}".to_string(), format!("m 1 {owned}"), format!("m {n}1")];
        if got != want {
            return Err(Fail::new("the macro shows another message", format!("{got:?}, not {want:?}")));
        }
        Ok(())
    });
}
