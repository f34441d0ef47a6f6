//! N02: which catalogue a message comes from, whatever was set before and
//! while it is set.

use std::collections::BTreeSet;
use std::time::Duration;

use mccore::explore::{Chooser, Config, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use mccore::statics;
use tinymist_l10n::{set_locale, set_translations, t_with_args, t_without_args, Arg, TranslationMapSet};

const NAMES: [&str; 5] = ["en", "zh", "zh-tw", "pt-br", "z"];
const KEYS: [&str; 3] = ["k.one", "k.two", "k.none"];

fn text(lang: &str, key: &str) -> String {
    format!("{lang} {key} {{x}}")
}

/// Catalogues that hold the first key, and the second in some of them.
fn catalogues(names: &[&str]) -> TranslationMapSet {
    names
        .iter()
        .enumerate()
        .map(|(n, l)| {
            let keys = if n % 2 == 0 { &KEYS[..1] } else { &KEYS[..2] };
            (l.to_string(), keys.iter().map(|k| (k.to_string(), text(l, k))).collect())
        })
        .collect()
}

fn has(names: &[&str], lang: &str, key: usize) -> bool {
    names.iter().position(|l| *l == lang).is_some_and(|n| key == 0 || key == 1 && n % 2 == 1)
}

/// The catalogues that may serve a request.
fn serving<'a>(names: &[&'a str], request: &str) -> Vec<&'a str> {
    let r = request.to_lowercase();
    if let Some(n) = names.iter().find(|n| **n == r) {
        return vec![n];
    }
    names.iter().copied().filter(|n| r.strip_prefix(n).is_some_and(|x| x.starts_with('-'))).collect()
}

const SOURCE: [&str; 3] = ["source one {x}", "source two {x}", "source none"];

fn shown(names: &[&str], lang: Option<&str>, key: usize) -> String {
    match lang {
        Some(l) if has(names, l, key) => text(l, KEYS[key]),
        _ => SOURCE[key].into(),
    }
}

fn look(key: usize) -> String {
    t_without_args(KEYS[key], SOURCE[key]).into_owned()
}

fn look_with(key: usize) -> String {
    t_with_args(KEYS[key], SOURCE[key], &[("x", Arg::Int(5))]).into_owned()
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(old: i32, new: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// Keeps what is offered a second time from filling the log.
struct Silence(i32);
impl Silence {
    fn new() -> Silence {
        use std::os::fd::AsRawFd;
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe {
            let old = dup(2);
            dup2(null.as_raw_fd(), 2);
            Silence(old)
        }
    }
}
impl Drop for Silence {
    fn drop(&mut self) {
        unsafe {
            dup2(self.0, 2);
            close(self.0);
        }
    }
}

pub fn locales(ctx: &mut Ctx) {
    let _silence = Silence::new();
    let requests = [
        "en", "zh", "ZH", "zh-CN", "zh-TW", "Zh-tw", "zh-tw-x", "zhx", "zh_CN", "fr", "", "-", "z", "z-z", "pt", "PT-BR", "pt-br-", "en-US",
        "en-", "-en", "ü-x", "z-ü", "ZH-Ü",
    ];
    let one = |bound| Config { bound, workers: 1, max_wall: Duration::from_secs(200), ..Config::default() };
    let depth = ctx.by(2, 3);
    ctx.explore_with(
        "requested locales",
        "histories",
        &format!("every history of up to {depth} of {} requested locales over every subset of the catalogues {NAMES:?}, and requests before there are any", requests.len()),
        one(0),
        |ch: &mut Chooser| {
            statics::fresh();
            let set = ch.choose("catalogues", 1 << NAMES.len());
            let names: Vec<&str> = NAMES.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|x| *x.1).collect();
            let mut current: Option<Vec<&str>> = None;
            let early = ch.choose("early request", 2) == 1;
            let judge = |current: &Option<Vec<&str>>| -> Result<(), Fail> {
                for k in 0..KEYS.len() {
                    let allowed: Vec<String> = match current {
                        None => vec![shown(&names, None, k)],
                        Some(v) => v.iter().map(|l| shown(&names, Some(l), k)).collect(),
                    };
                    let (got, with) = (look(k), look_with(k));
                    if !allowed.contains(&got) || !allowed.iter().any(|a| a.replace("{x}", "5") == with) {
                        return Err(Fail::new(
                            "a message from another catalogue",
                            format!("{}: {got:?}, {with:?}, not of {allowed:?} (catalogues {names:?})", KEYS[k]),
                        ));
                    }
                }
                Ok(())
            };
            if early {
                if set_locale("zh").is_some() {
                    return Err(Fail::new("a locale is set without catalogues", "zh"));
                }
                judge(&current)?;
            }
            set_translations(catalogues(&names));
            judge(&current)?;
            let n = ch.choose("requests", depth) + 1;
            for _ in 0..n {
                let r = *ch.pick("request", &requests);
                let s = serving(&names, r);
                let ok = rt::quietly(|| set_locale(r)).map_err(|m| Fail::new("a request panics", format!("{r:?}: {m}")))?.is_some();
                ch.note(|| format!("{r:?}: {ok}"));
                if ok == s.is_empty() {
                    return Err(Fail::new("a request is answered wrongly", format!("{r:?} over {names:?}: {ok}")));
                }
                if ok {
                    current = Some(s);
                }
                judge(&current)?;
            }
            ch.observe((set, &current));
            Ok(())
        },
    );

    let bound = ctx.by(3, 6);
    let programs: Vec<Vec<Vec<Op>>> = vec![
        vec![vec![Op::Set("zh")], vec![Op::Look(0), Op::Look(0)]],
        vec![vec![Op::Set("zh"), Op::Look(1)], vec![Op::Set("en"), Op::Look(1)]],
        vec![vec![Op::Set("zh"), Op::Set("fr")], vec![Op::Look(0), Op::Look(1)]],
        vec![vec![Op::Set("zh")], vec![Op::Set("en")], vec![Op::Look(0), Op::Look(0)]],
        vec![vec![Op::Set("zh"), Op::Set("zh-tw")], vec![Op::Look(1), Op::Look(1), Op::Look(1)]],
        vec![vec![Op::Load(0), Op::Set("zh")], vec![Op::Set("zh"), Op::Look(0)]],
        vec![vec![Op::Load(0), Op::Set("zh"), Op::Look(0)], vec![Op::Load(1), Op::Set("zh"), Op::Look(0)]],
        vec![vec![Op::Load(0)], vec![Op::Load(1)], vec![Op::Set("en"), Op::Look(0)]],
    ];
    let programs = &programs;
    ctx.explore_with(
        "threads and locales",
        "schedules",
        &format!("{} programs of two or three threads that load catalogues, set locales and translate, under every schedule with at most {bound} preemptions", programs.len()),
        one(bound),
        |ch: &mut Chooser| schedules(ch, programs),
    );
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(&'static str),
    Look(usize),
    /// Offers catalogues: of the first kind, or of one whose texts differ.
    Load(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Did {
    Set(bool),
    Look(String),
    Load,
}

fn offered(kind: usize) -> TranslationMapSet {
    let mut c = catalogues(&NAMES);
    if kind == 1 {
        for (_, m) in &mut c {
            for t in m.values_mut() {
                t.insert(0, '!');
            }
        }
    }
    c
}

fn schedules(ch: &mut Chooser, programs: &[Vec<Vec<Op>>]) -> Result<(), Fail> {
    statics::fresh();
    let p = ch.choose("program", programs.len());
    let prog = programs[p].clone();
    let loads = prog.iter().flatten().any(|o| matches!(o, Op::Load(_)));
    let before = if loads { None } else { *ch.pick("locale before", &[None, Some("pt-br"), Some("en")]) };
    let p2 = prog.clone();
    let res = rt::run(ch, rt::Opts::default(), move || {
        if !loads {
            set_translations(offered(0));
        }
        if let Some(b) = before {
            set_locale(b);
        }
        let hs: Vec<_> = p2
            .into_iter()
            .enumerate()
            .map(|(n, ops)| {
                rt::spawn(["t0", "t1", "t2"][n], move || {
                    ops.into_iter()
                        .map(|op| {
                            let d = match op {
                                Op::Set(l) => Did::Set(set_locale(l).is_some()),
                                Op::Look(k) => Did::Look(look(k)),
                                Op::Load(k) => {
                                    set_translations(offered(k));
                                    Did::Load
                                }
                            };
                            rt::note(|| format!("t{n} {op:?}: {d:?}"));
                            d
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        let mut did = vec![];
        for h in hs {
            did.push(h.join().map_err(|_| "a thread panicked".to_string())?);
        }
        Ok::<_, String>((did, (0..KEYS.len()).map(look).collect::<Vec<_>>()))
    });
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{prog:?} from {before:?}: {m}")));
    match res.end {
        End::Done { .. } => {}
        e => return bad("does not end well", format!("{e:?} {:?}", res.panics)),
    }
    let (did, end) = match res.value.unwrap() {
        Ok(v) => v,
        Err(e) => return bad(&e.clone(), format!("{e} {:?}", res.panics)),
    };
    ch.observe((p, before, &did, &end));
    // The history must be that of some order of the operations, in which each
    // takes place at once.
    let mut seen = BTreeSet::new();
    if linear(&prog, &did, &mut vec![0; prog.len()], (if loads { None } else { Some(0) }, before.map(String::from)), &end, &mut seen) {
        Ok(())
    } else {
        bad("no order of the operations explains what was seen", format!("{did:?}, at last {end:?}"))
    }
}

type State = (Option<usize>, Option<String>);

fn linear(prog: &[Vec<Op>], did: &[Vec<Did>], at: &mut Vec<usize>, st: State, end: &[String], seen: &mut BTreeSet<(Vec<usize>, State)>) -> bool {
    if !seen.insert((at.clone(), st.clone())) {
        return false;
    }
    let show = |st: &State, k: usize| {
        let s = shown(&NAMES, st.1.as_deref(), k);
        if st.0 == Some(1) && s != SOURCE[k] {
            format!("!{s}")
        } else {
            s
        }
    };
    if at.iter().zip(prog).all(|(a, p)| *a == p.len()) {
        return (0..KEYS.len()).all(|k| end[k] == show(&st, k));
    }
    for t in 0..prog.len() {
        let Some(op) = prog[t].get(at[t]) else { continue };
        let d = &did[t][at[t]];
        let next: Option<State> = match (op, d) {
            (Op::Set(l), Did::Set(ok)) => {
                let s = if st.0.is_some() { serving(&NAMES, l) } else { vec![] };
                match (s.first(), ok) {
                    (Some(s), true) => Some((st.0, Some(s.to_string()))),
                    (None, false) => Some(st.clone()),
                    _ => None,
                }
            }
            (Op::Look(k), Did::Look(s)) => (show(&st, *k) == *s).then(|| st.clone()),
            (Op::Load(k), Did::Load) => Some((Some(st.0.unwrap_or(*k)), st.1.clone())),
            _ => None,
        };
        if let Some(next) = next {
            at[t] += 1;
            let ok = linear(prog, did, at, next, end, seen);
            at[t] -= 1;
            if ok {
                return true;
            }
        }
    }
    false
}
