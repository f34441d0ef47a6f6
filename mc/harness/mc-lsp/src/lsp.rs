//! Histories of the language server against a reference model.

use std::collections::BTreeMap;

use mccore::{Chooser, Ctx, Fail};
use serde_json::{json, Value};
use sync_ls::LspMessage;

use crate::base::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Uninit,
    Initializing,
    Ready,
    Shut,
    Exited,
}

/// How a ready server answers.
#[derive(Clone, Copy, Debug)]
enum Ans {
    /// With the tag of the request.
    Tag,
    Null,
    Text(&'static str),
    Err(&'static [i32]),
    /// When the environment completes it.
    Later,
}

#[derive(Clone, Copy)]
struct Sym {
    name: &'static str,
    method: &'static str,
    params: fn(&str) -> Value,
    ans: Ans,
    /// The log line of its handler: `<log> <tag>`.
    log: &'static str,
}

fn tagged(t: &str) -> Value {
    json!({ "tag": t })
}
fn malformed(_: &str) -> Value {
    json!([1, 2])
}
fn cmd(c: &'static str, t: &str) -> Value {
    json!({"command": c, "arguments": [{"tag": t}]})
}

const EXEC: &str = "workspace/executeCommand";

const SYMS: &[Sym] = &[
    Sym { name: "ok", method: "t/ok", params: tagged, ans: Ans::Tag, log: "ok" },
    Sym { name: "async", method: "t/async", params: tagged, ans: Ans::Later, log: "async" },
    Sym { name: "err", method: "t/err", params: tagged, ans: Ans::Err(&[-32803]), log: "err" },
    Sym { name: "doneErr", method: "t/doneErr", params: tagged, ans: Ans::Err(&[-32801]), log: "doneErr" },
    Sym { name: "none", method: "t/none", params: tagged, ans: Ans::Null, log: "none" },
    Sym { name: "self", method: "t/self", params: tagged, ans: Ans::Tag, log: "self" },
    Sym { name: "defer", method: "t/defer", params: tagged, ans: Ans::Later, log: "defer" },
    Sym { name: "rawErr", method: "t/rawErr", params: tagged, ans: Ans::Err(&[-32802]), log: "rawErr" },
    Sym { name: "both", method: "t/both", params: tagged, ans: Ans::Tag, log: "both" },
    Sym { name: "typedRaw", method: "t/typedRaw", params: tagged, ans: Ans::Tag, log: "typedRaw" },
    Sym { name: "malformed", method: "t/ok", params: malformed, ans: Ans::Err(&[-32600, -32602]), log: "" },
    Sym { name: "unknown", method: "t/unknown", params: tagged, ans: Ans::Err(&[-32601]), log: "" },
    Sym { name: "c/ok", method: EXEC, params: |t| cmd("c/ok", t), ans: Ans::Tag, log: "c/ok" },
    Sym { name: "c/async", method: EXEC, params: |t| cmd("c/async", t), ans: Ans::Later, log: "c/async" },
    Sym { name: "c/none", method: EXEC, params: |t| cmd("c/none", t), ans: Ans::Null, log: "c/none" },
    Sym { name: "c/err", method: EXEC, params: |t| cmd("c/err", t), ans: Ans::Err(&[-32803]), log: "c/err" },
    Sym { name: "c/unknown", method: EXEC, params: |t| cmd("c/nope", t), ans: Ans::Err(&[-32601]), log: "" },
    Sym { name: "c/malformed", method: EXEC, params: malformed, ans: Ans::Err(&[-32602, -32600]), log: "" },
    Sym {
        name: "resource",
        method: EXEC,
        params: |_| json!({"command": "tinymist.getResources", "arguments": ["/res/known"]}),
        ans: Ans::Text("resource"),
        log: "resource=1",
    },
    Sym {
        name: "resource+args",
        method: EXEC,
        params: |_| json!({"command": "tinymist.getResources", "arguments": ["/res/known", 7]}),
        ans: Ans::Text("resource"),
        log: "resource=2",
    },
    Sym {
        name: "resource unknown",
        method: EXEC,
        params: |_| json!({"command": "tinymist.getResources", "arguments": ["/res/unknown"]}),
        ans: Ans::Err(&[-32601]),
        log: "",
    },
    Sym {
        name: "resource malformed",
        method: EXEC,
        params: |_| json!({"command": "tinymist.getResources", "arguments": [{"no": "path"}]}),
        ans: Ans::Err(&[-32602, -32600]),
        log: "",
    },
    Sym {
        name: "resource empty",
        method: EXEC,
        params: |_| json!({"command": "tinymist.getResources", "arguments": []}),
        ans: Ans::Err(&[-32602, -32600]),
        log: "",
    },
];

fn sym(name: &str) -> Sym {
    *SYMS.iter().find(|s| s.name == name).unwrap()
}

/// The reference model, together with the server under test.
pub struct Model {
    pub sys: Sys,
    pub st: St,
    k: usize,
    /// Requests without an answer yet, by tag, in order.
    pub pending: Vec<(String, Value)>,
    /// Every id that was answered.
    answered: BTreeMap<String, usize>,
    asked: Vec<Value>,
    check_codes: bool,
    check_log: bool,
    defer_init: bool,
    reuse: Option<Value>,
    /// Ids of what the server asked the client.
    open: Vec<Value>,
}

type R = Result<(), Fail>;

fn key(v: &Value) -> String {
    v.to_string()
}

impl Model {
    pub fn new(check_codes: bool, check_log: bool, defer_init: bool) -> Model {
        Model {
            sys: Sys::new(defer_init),
            st: St::Uninit,
            k: 0,
            pending: vec![],
            answered: BTreeMap::new(),
            asked: vec![],
            check_codes,
            check_log,
            defer_init,
            reuse: None,
            open: vec![],
        }
    }

    /// A fresh id: 1, "1", 2, "2", ...
    fn id(&mut self) -> Value {
        if let Some(v) = self.reuse.take() {
            return v;
        }
        self.k += 1;
        if self.k % 2 == 1 {
            json!(self.k.div_ceil(2))
        } else {
            json!((self.k / 2).to_string())
        }
    }

    fn run(&mut self, what: &str, msgs: Vec<LspMessage>) -> Result<usize, Fail> {
        let sys = &mut self.sys;
        match mccore::rt::quietly(|| sys.feed(msgs)) {
            Ok(Ok(n)) => Ok(n),
            Ok(Err(e)) => Err(Fail::new(format!("loop error on {what}"), format!("main loop failed on {what}: {e}"))),
            Err(p) => Err(Fail::new(
                format!("main loop panics on {what}"),
                format!("the main loop panicked on {what}: {p}"),
            )),
        }
    }

    /// Compares what the server wrote with the one expected answer.
    fn expect(&mut self, what: &str, want: Option<(&Value, &Ans, &str)>) -> R {
        let outs = self.sys.outputs();
        for o in &outs {
            if o.get("method").is_some() {
                return Err(Fail::new(format!("{what}: unexpected message"), format!("{what}: wrote {o}")));
            }
            let id = &o["id"];
            *self.answered.entry(key(id)).or_default() += 1;
        }
        let Some((id, ans, tag)) = want else {
            if !outs.is_empty() {
                return Err(Fail::new(
                    format!("{what}: unexpected answer"),
                    format!("{what}: expected no answer, got {outs:?}"),
                ));
            }
            return Ok(());
        };
        if let Ans::Later = ans {
            self.pending.push((tag.to_owned(), id.clone()));
            if !outs.is_empty() {
                return Err(Fail::new(
                    format!("{what}: answered before completion"),
                    format!("{what}: expected no answer yet, got {outs:?}"),
                ));
            }
            return Ok(());
        }
        self.one(what, &outs, id, ans, tag)
    }

    fn one(&mut self, what: &str, outs: &[Value], id: &Value, ans: &Ans, tag: &str) -> R {
        if outs.len() != 1 {
            return Err(Fail::new(
                format!("{what}: {} answers", outs.len()),
                format!("{what} (id {id}, state {:?}): expected one answer, got {outs:?}", self.st),
            ));
        }
        let o = &outs[0];
        let bad = |why: &str| {
            Err(Fail::new(format!("{what}: {why}"), format!("{what} (id {id}): {why}: {o}")))
        };
        if &o["id"] != id {
            return bad("answer has another id");
        }
        let (res, er) = (o.get("result"), o.get("error"));
        match ans {
            Ans::Err(codes) => {
                let Some(e) = er else { return bad("expected an error") };
                if res.is_some() {
                    return bad("both a result and an error");
                }
                if self.check_codes && !codes.iter().any(|c| e["code"] == json!(c)) {
                    return bad("unexpected error code");
                }
            }
            Ans::Later => unreachable!(),
            _ => {
                if er.is_some() {
                    return bad("unexpected error");
                }
                let want = match ans {
                    Ans::Tag => json!(tag),
                    Ans::Text(t) => json!(t),
                    _ => Value::Null,
                };
                if res.unwrap_or(&Value::Null) != &want {
                    return bad("answer of another request");
                }
            }
        }
        Ok(())
    }

    fn logs(&mut self, what: &str, want: &[String]) -> R {
        let got = self.sys.logs();
        if self.check_log && got != want {
            return Err(Fail::new(
                format!("{what}: handlers that ran"),
                format!("{what} in state {:?}: expected handlers {want:?}, ran {got:?}", self.st),
            ));
        }
        Ok(())
    }

    fn request(&mut self, s: Sym) -> R {
        let id = self.id();
        let tag = format!("q{}", self.asked.len());
        self.asked.push(id.clone());
        let m = request(&id, s.method, (s.params)(&tag));
        let left = self.run(s.name, vec![m])?;
        if self.st == St::Exited {
            let _ = left;
            return Ok(());
        }
        let mut want_log = vec![];
        let ans = match self.st {
            St::Uninit | St::Initializing => Ans::Err(&[-32002]),
            St::Shut => Ans::Err(&[-32600]),
            _ => {
                if let Some(n) = s.log.strip_prefix("resource=") {
                    want_log.push(format!("resource {n}"));
                } else if !s.log.is_empty() {
                    want_log.push(format!("{} {tag}", s.log));
                }
                s.ans
            }
        };
        self.expect(s.name, Some((&id, &ans, &tag)))?;
        self.logs(s.name, &want_log)
    }

    pub fn initialize(&mut self, kind: usize) -> R {
        let id = self.id();
        self.asked.push(id.clone());
        let params = match kind {
            0 => json!({"ok": true}),
            1 => json!({"ok": false}),
            _ => json!({"nope": 1}),
        };
        let what = ["initialize", "initialize (fails)", "initialize (malformed)"][kind];
        self.run(what, vec![request(&id, "initialize", params)])?;
        let mut log = vec![];
        let ans = match self.st {
            St::Uninit if kind == 2 => Ans::Err(&[-32600, -32602]),
            St::Uninit => {
                log.push("initialize".to_string());
                self.st = St::Initializing;
                if self.defer_init {
                    Ans::Later
                } else if kind == 0 {
                    let outs = self.sys.outputs();
                    self.logs(what, &log)?;
                    if outs.len() != 1 || outs[0]["id"] != id || outs[0].get("result").is_none() {
                        return Err(Fail::new(
                            "initialize: wrong answer",
                            format!("initialize (id {id}): expected one result, got {outs:?}"),
                        ));
                    }
                    *self.answered.entry(key(&id)).or_default() += 1;
                    return Ok(());
                } else {
                    Ans::Err(&[-32803])
                }
            }
            St::Initializing => Ans::Err(&[-32002, -32600]),
            _ => Ans::Err(&[-32600]),
        };
        self.expect(what, Some((&id, &ans, "init")))?;
        self.logs(what, &log)
    }

    pub fn initialized(&mut self) -> R {
        self.run("initialized", vec![notif("initialized", json!({}))])?;
        if self.st == St::Initializing {
            self.st = St::Ready;
        }
        self.expect("initialized", None)?;
        self.logs("initialized", &[])
    }

    fn shutdown(&mut self, how: &str) -> R {
        let id = self.id();
        let tag = format!("q{}", self.asked.len());
        self.asked.push(id.clone());
        let params = match how {
            "" => Value::Null,
            _ => json!({"how": how, "tag": tag}),
        };
        self.run("shutdown", vec![request(&id, "shutdown", params)])?;
        let mut log = vec![];
        let ans = match self.st {
            St::Uninit | St::Initializing => Ans::Err(&[-32002]),
            St::Shut => Ans::Err(&[-32600]),
            _ => {
                log.push("shutdown".into());
                self.st = St::Shut;
                match how {
                    "fail" => Ans::Err(&[-32803]),
                    "later" => Ans::Later,
                    _ => Ans::Null,
                }
            }
        };
        self.expect("shutdown", Some((&id, &ans, &tag)))?;
        self.logs("shutdown", &log)
    }

    /// Lifecycle messages of the wrong kind: they are ordinary unknown ones.
    fn wrong_kind(&mut self, method: &str, is_request: bool) -> R {
        let what = format!("{method} as a {}", if is_request { "request" } else { "notification" });
        if !is_request {
            self.run(&what, vec![notif(method, json!({"ok": true}))])?;
            self.expect(&what, None)?;
            return self.logs(&what, &[]);
        }
        let id = self.id();
        self.asked.push(id.clone());
        self.run(&what, vec![request(&id, method, Value::Null)])?;
        let ans = match self.st {
            St::Uninit | St::Initializing => Ans::Err(&[-32002]),
            St::Shut => Ans::Err(&[-32600]),
            _ => Ans::Err(&[-32601]),
        };
        self.expect(&what, Some((&id, &ans, "")))?;
        self.logs(&what, &[])
    }

    /// The server asks the client something, if a handler can run.
    fn ask(&mut self) -> R {
        self.sys.send_event(Box::new(EvB("ask:p".into())));
        let sys = &mut self.sys;
        match mccore::rt::quietly(|| sys.drain_events()) {
            Ok(Ok(())) => {}
            x => return Err(Fail::new("event: loop failed", format!("event: loop failed: {x:?}"))),
        }
        let can = matches!(self.st, St::Initializing | St::Ready);
        let outs = self.sys.outputs();
        if outs.len() != usize::from(can) || outs.iter().any(|o| o["method"] != "server/ask") {
            return Err(Fail::new(
                "event: requests to the client",
                format!("an event in state {:?} led to {outs:?}", self.st),
            ));
        }
        self.open.extend(outs.into_iter().map(|o| o["id"].clone()));
        let log: Vec<String> = can.then(|| "event B ask:p".to_string()).into_iter().collect();
        self.logs("event", &log)
    }

    /// The client answers what the server asked.
    fn answer(&mut self) -> R {
        let id = self.open.remove(0);
        self.run("reply", vec![parse(json!({"jsonrpc": "2.0", "id": id, "result": 5}))])?;
        self.expect("reply", None)?;
        let log = match self.st {
            St::Ready => vec!["reply p ok 5".to_string()],
            _ => vec![],
        };
        self.logs("reply", &log)
    }

    fn note(&mut self, raw: bool) -> R {
        let m = if raw { "t/rawNote" } else { "t/note" };
        self.run(m, vec![notif(m, json!({"tag": "n"}))])?;
        let log = match self.st {
            St::Ready if raw => vec!["rawNote n".to_string()],
            St::Ready => vec!["note n".into()],
            _ => vec![],
        };
        self.expect(m, None)?;
        self.logs(m, &log)
    }

    fn stray_note(&mut self, malformed: bool) -> R {
        let m = if malformed { "t/note" } else { "t/unknownNote" };
        self.run("stray notification", vec![notif(m, json!([3]))])?;
        self.expect("stray notification", None)?;
        self.logs("stray notification", &[])
    }

    fn event(&mut self) -> R {
        self.sys.send_event(Box::new(EvA("x".into())));
        let sys = &mut self.sys;
        match mccore::rt::quietly(|| sys.drain_events()) {
            Ok(Ok(())) => {}
            x => return Err(Fail::new("event: loop failed", format!("event: loop failed: {x:?}"))),
        }
        let log = match self.st {
            St::Uninit => vec!["early event A x".to_string()],
            St::Initializing | St::Ready => vec!["event A x".into()],
            _ => vec![],
        };
        self.expect("event", None)?;
        self.logs("event", &log)
    }

    /// `exit`, followed by a request that must stay unread.
    fn exit(&mut self) -> R {
        let left = self.run("exit", vec![
            notif("exit", Value::Null),
            request(&json!(9999), "t/ok", json!({"tag": "late"})),
        ])?;
        self.expect("exit", None)?;
        self.logs("exit", &[])?;
        if left != 1 {
            return Err(Fail::new("exit does not end the loop", "the loop went on after exit"));
        }
        self.st = St::Exited;
        Ok(())
    }

    fn stray_reply(&mut self) -> R {
        let m = parse(json!({"id": 77, "result": 1}));
        self.run("stray reply", vec![m])?;
        self.expect("stray reply", None)?;
        self.logs("stray reply", &[])
    }

    fn complete(&mut self, i: usize, ok: bool) -> R {
        let (tag, id) = self.pending.remove(i);
        let res = if ok { Ok(json!(tag)) } else { Err(err(-32803, "late")) };
        let sys = &mut self.sys;
        let what = if ok { "completion" } else { "failed completion" };
        match mccore::rt::quietly(|| sys.complete(&tag, res)) {
            Ok(true) => {}
            Ok(false) => return Err(Fail::new("handler did not run", format!("{tag} is not deferred"))),
            Err(p) => return Err(Fail::new("completion panics", p)),
        }
        let outs = self.sys.outputs();
        for o in &outs {
            *self.answered.entry(key(&o["id"])).or_default() += 1;
        }
        let ans = if ok { Ans::Tag } else { Ans::Err(&[-32803]) };
        self.one(what, &outs, &id, &ans, &tag)
    }

    /// Completes what is left in every order, then counts the answers.
    fn finish(&mut self, ch: &mut Chooser) -> R {
        while !self.pending.is_empty() {
            let i = ch.choose("completion order", self.pending.len());
            self.complete(i, true)?;
        }
        let rest = self.sys.outputs();
        if !rest.is_empty() {
            return Err(Fail::new("answers out of the blue", format!("late answers {rest:?}")));
        }
        if self.sys.client.has_pending_requests() {
            return Err(Fail::new(
                "requests stay pending",
                "every request is answered, but some are still registered as pending",
            ));
        }
        Ok(())
    }
}

fn histories(ch: &mut Chooser, names: &[&str], depth: usize, reuse: bool) -> R {
    let mut m = Model::new(false, true, false);
    m.initialize(0)?;
    m.initialized()?;
    ch.note(|| "initialize, initialized".into());
    let syms: Vec<Sym> = names.iter().map(|n| sym(n)).collect();
    let mut last_done: Option<Value> = None;
    for _ in 0..depth {
        let extra = usize::from(!m.pending.is_empty()) * 2 + usize::from(m.pending.len() > 1);
        // 0 ends the history.
        let c = ch.choose("step", 1 + syms.len() + extra);
        if c == 0 {
            break;
        }
        ch.note(|| if c <= syms.len() { syms[c - 1].name.into() } else { format!("complete {}", c - syms.len()) });
        if c <= syms.len() {
            if reuse {
                if let Some(v) = last_done.take() {
                    if ch.choose("id", 2) == 1 {
                        m.reuse = Some(v);
                    }
                }
            }
            let before = m.pending.len();
            m.request(syms[c - 1])?;
            if m.pending.len() == before {
                last_done = m.asked.last().cloned();
            }
        } else {
            let j = c - syms.len() - 1;
            let at = if j == 2 { m.pending.len() - 1 } else { 0 };
            let id = m.pending[at].1.clone();
            m.complete(at, j != 1)?;
            last_done = Some(id);
        }
        ch.observe((m.pending.len(), c));
    }
    m.finish(ch)
}

pub fn answers(ctx: &mut Ctx) {
    let all: Vec<&str> = SYMS.iter().map(|s| s.name).collect();
    let d = ctx.by(3, 4);
    ctx.explore(
        "histories",
        "histories",
        &format!("all histories of up to {d} of {} kinds of requests to a ready server and completions of deferred ones, then every order of the remaining completions", all.len()),
        0,
        |ch| histories(ch, &all, d, false),
    );
    let some = ["ok", "async", "defer", "both", "unknown"];
    let d = ctx.by(5, 6);
    ctx.explore(
        "deep",
        "histories",
        &format!("all histories of up to {d} of {some:?} and completions"),
        0,
        |ch| histories(ch, &some, d, false),
    );
    let some = ["ok", "async", "defer", "err", "none"];
    let d = ctx.by(4, 5);
    ctx.explore(
        "reused ids",
        "histories",
        &format!("all histories of up to {d} of {some:?} and completions, with and without reusing the id of an answered request"),
        0,
        |ch| histories(ch, &some, d, true),
    );
    lifecycle(ctx, false, false);
    endings(ctx, false, false);
}

#[derive(Clone, Copy, Debug)]
enum L {
    Init,
    InitFail,
    InitBad,
    Inited,
    Ok,
    Async,
    Cmd,
    Note,
    RawNote,
    StrayNote,
    BadNote,
    Ev,
    Reply,
    Shutdown,
    ShutdownFails,
    ShutdownLater,
    ShutdownSelf,
    ShutdownNote,
    InitNote,
    InitedReq,
    ExitReq,
    Ask,
    Answer,
    Exit,
    Complete,
}

fn life(ch: &mut Chooser, alphabet: &[L], depth: usize, codes: bool, log: bool, defer_init: bool, ready: bool) -> R {
    let mut m = Model::new(codes, log, defer_init);
    if ready {
        m.initialize(0)?;
        m.initialized()?;
    }
    for _ in 0..depth {
        let c = ch.choose("step", alphabet.len() + 1);
        if c == 0 {
            break;
        }
        let l = alphabet[c - 1];
        ch.note(|| format!("{l:?}"));
        match l {
            L::Init => m.initialize(0)?,
            L::InitFail => m.initialize(1)?,
            L::InitBad => m.initialize(2)?,
            L::Inited => m.initialized()?,
            L::Ok => m.request(sym("ok"))?,
            L::Async => m.request(sym("async"))?,
            L::Cmd => m.request(sym("c/ok"))?,
            L::Note => m.note(false)?,
            L::RawNote => m.note(true)?,
            L::StrayNote => m.stray_note(false)?,
            L::BadNote => m.stray_note(true)?,
            L::Ev => m.event()?,
            L::Reply => m.stray_reply()?,
            L::Shutdown => m.shutdown("")?,
            L::ShutdownFails => m.shutdown("fail")?,
            L::ShutdownLater => m.shutdown("later")?,
            L::ShutdownSelf => m.shutdown("self")?,
            L::ShutdownNote => m.wrong_kind("shutdown", false)?,
            L::InitNote => m.wrong_kind("initialize", false)?,
            L::InitedReq => m.wrong_kind("initialized", true)?,
            L::ExitReq => m.wrong_kind("exit", true)?,
            L::Ask => m.ask()?,
            L::Answer => {
                // What a reply between initialize and initialized does is open.
                if m.open.is_empty() || m.st == St::Initializing {
                    return Ok(());
                }
                m.answer()?
            }
            L::Complete => {
                if m.pending.is_empty() {
                    return Ok(());
                }
                m.complete(0, true)?
            }
            L::Exit => {
                m.exit()?;
                break;
            }
        }
        ch.observe(m.st);
    }
    m.finish(ch)
}

pub fn lifecycle(ctx: &mut Ctx, codes: bool, log: bool) {
    let a = [
        L::Init, L::Inited, L::Ok, L::Async, L::Cmd, L::Note, L::Ev, L::Shutdown, L::Exit,
    ];
    let d = ctx.by(5, 6);
    ctx.explore(
        "lifecycle",
        "histories",
        &format!("all histories of up to {d} of {a:?} from a fresh server"),
        0,
        |ch| life(ch, &a, d, codes, log, false, false),
    );
    let b = [
        L::Init, L::InitFail, L::InitBad, L::Inited, L::Ok, L::RawNote, L::StrayNote, L::BadNote,
        L::Reply, L::Shutdown, L::Exit,
    ];
    let d = ctx.by(4, 5);
    ctx.explore(
        "odd lifecycle",
        "histories",
        &format!("all histories of up to {d} of {b:?} from a fresh server"),
        0,
        |ch| life(ch, &b, d, codes, log, false, false),
    );
    let c = [L::Init, L::Inited, L::Ok, L::Complete, L::Shutdown, L::Exit];
    let d = ctx.by(6, 7);
    ctx.explore(
        "deferred initialize",
        "histories",
        &format!("all histories of up to {d} of {c:?} where initialize is answered later"),
        0,
        |ch| life(ch, &c, d, codes, log, true, false),
    );
}

/// The ways a session ends.
pub fn endings(ctx: &mut Ctx, codes: bool, log: bool) {
    let a = [
        L::Shutdown, L::ShutdownFails, L::ShutdownLater, L::ShutdownSelf, L::Ok, L::Async, L::Cmd, L::Note, L::Ev,
        L::Ask, L::Answer, L::Complete, L::Inited, L::Init, L::Exit,
    ];
    let d = ctx.by(4, 5);
    ctx.explore(
        "endings",
        "histories",
        &format!("all histories of up to {d} of {a:?} from a ready server"),
        0,
        |ch| life(ch, &a, d, codes, log, false, true),
    );
    let b = [
        L::Init, L::Inited, L::Ok, L::Note, L::Shutdown, L::ShutdownNote, L::InitNote, L::InitedReq, L::ExitReq, L::Exit,
    ];
    let d = ctx.by(4, 5);
    ctx.explore(
        "wrong kinds",
        "histories",
        &format!("all histories of up to {d} of {b:?} from a fresh server"),
        0,
        |ch| life(ch, &b, d, codes, log, false, false),
    );
}

/// A session of many requests in both directions, some of which stay open for
/// long.
fn long(ch: &mut Chooser, n: usize) -> R {
    let first = ch.pick("first id", &[json!(2), json!("2"), json!(2147483647 - n as i64 * 3)]).clone();
    let late = *ch.pick("answered after", &[1usize, 9]);
    let mut m = Model::new(false, true, false);
    m.initialize(0)?;
    m.initialized()?;
    m.reuse = None;
    let id = |k: usize| match &first {
        Value::String(_) => json!((k + 2).to_string()),
        v => json!(v.as_i64().unwrap() + k as i64),
    };
    let bad = |sig: &str, what: String| Err(Fail::new(format!("long session: {sig}"), what));
    let mut used = std::collections::HashSet::new();
    let mut open: std::collections::VecDeque<(Value, String)> = Default::default();
    let mut asked: std::collections::VecDeque<(Value, String)> = Default::default();
    for i in 0..n {
        let (a, b) = (id(2 * i), id(2 * i + 1));
        let (ta, tb, tc) = (format!("a{i}"), format!("b{i}"), format!("c{i}"));
        m.run("long session", vec![
            request(&a, "t/ok", json!({"tag": ta})),
            request(&b, "t/async", json!({"tag": tb})),
            request(&id(2 * n + i), "t/ask", json!({"tag": tc})),
        ])?;
        let mut want_log = vec![format!("ok {ta}"), format!("async {tb}"), format!("ask {tc}")];
        open.push_back((b, tb.clone()));
        let mut want = vec![(a.clone(), json!(ta))];
        if open.len() > late {
            let (q, t) = open.pop_front().unwrap();
            if !m.sys.complete(&t, Ok(json!(t))) {
                return bad("handler did not run", t);
            }
            want.push((q, json!(t)));
        }
        let outs = m.sys.outputs();
        let mut answers = vec![];
        for o in &outs {
            if o["method"] == "server/ask" {
                if !used.insert(key(&o["id"])) {
                    return bad("id used twice", format!("round {i}: {o}"));
                }
                asked.push_back((o["id"].clone(), tc.clone()));
            } else {
                answers.push((o["id"].clone(), o["result"].clone()));
            }
        }
        answers.retain(|x| x.0 != id(2 * n + i));
        if answers != want || outs.len() != want.len() + 2 {
            return bad("answers", format!("round {i}: {outs:?}, expected {want:?}, the answer to t/ask and a request"));
        }
        if asked.len() > late {
            let (q, t) = asked.pop_front().unwrap();
            m.run("reply", vec![parse(json!({"jsonrpc": "2.0", "id": q, "result": i}))])?;
            want_log.push(format!("reply {t} ok {i}"));
        }
        let log = m.sys.logs();
        if log != want_log {
            return bad("handlers that ran", format!("round {i}: {log:?}, expected {want_log:?}"));
        }
    }
    ch.observe((key(&first), late));
    Ok(())
}

pub fn long_sessions(ctx: &mut Ctx) {
    let n = ctx.by(34_000, 200_000);
    ctx.explore(
        "long sessions",
        "histories",
        &format!("sessions of {} requests of the client, a third of them answered rounds later, and {n} of the server, answered rounds later", 3 * n),
        0,
        |ch| long(ch, n),
    );
}

/// Server-initiated requests.
#[derive(Clone, Debug)]
struct Asked {
    id: Value,
    tag: String,
}

fn routing(ch: &mut Chooser, depth: usize) -> R {
    let mut m = Model::new(false, true, false);
    m.initialize(0)?;
    m.initialized()?;
    let mut open: Vec<Asked> = vec![];
    let mut used: Vec<Value> = vec![];
    let mut seen: Vec<Value> = vec![];
    let mut deferred: Vec<(String, Value)> = vec![];
    let mut k = 0;
    for _ in 0..depth {
        const OPS: [&str; 13] = [
            "end", "ask", "ask chain", "ask twice", "reply ok 0", "reply err last", "reply null 0",
            "reply unknown", "reply used", "reply text id", "client request with that id", "complete it",
            "event asks",
        ];
        let op = OPS[ch.choose("op", OPS.len())];
        ch.note(|| op.to_string());
        let mut want_log: Vec<String> = vec![];
        let mut want_asks: Vec<String> = vec![];
        let mut want_ans: Option<(Value, Value)> = None;
        let mut msg: Option<LspMessage> = None;
        match op {
            "end" => break,
            "ask" | "ask chain" | "ask twice" => {
                k += 1;
                let t = match op {
                    "ask" => format!("p{k}"),
                    "ask chain" => format!("chain{k}"),
                    _ => format!("twice{k}"),
                };
                // An id that is no server id: text.
                let id = json!(format!("c{k}"));
                want_log.push(format!("ask {t}"));
                want_asks.push(t.clone());
                if op == "ask twice" {
                    want_asks.push(format!("{t}+"));
                }
                want_ans = Some((id.clone(), json!(t)));
                msg = Some(request(&id, "t/ask", json!({"tag": t})));
            }
            "event asks" => {
                k += 1;
                let t = format!("e{k}");
                want_log.push(format!("event B ask:{t}"));
                want_asks.push(t.clone());
                m.sys.send_event(Box::new(EvB(format!("ask:{t}"))));
            }
            "reply ok 0" | "reply err last" | "reply null 0" => {
                if open.is_empty() {
                    return Ok(());
                }
                let a = open.remove(if op == "reply err last" { open.len() - 1 } else { 0 });
                used.push(a.id.clone());
                let (r, l) = match op {
                    "reply ok 0" => (json!({"jsonrpc": "2.0", "id": a.id, "result": a.tag}), format!("ok {}", json!(a.tag))),
                    "reply null 0" => (json!({"id": a.id, "result": null}), "ok null".to_string()),
                    _ => (json!({"id": a.id, "error": {"code": -5, "message": "no"}}), "err -5".to_string()),
                };
                want_log.push(format!("reply {} {l}", a.tag));
                if a.tag.starts_with("chain") && !a.tag.ends_with('\'') {
                    want_asks.push(format!("{}'", a.tag));
                }
                msg = Some(parse(r));
            }
            "reply unknown" => msg = Some(parse(json!({"id": 7777, "result": 1}))),
            "reply used" => {
                let Some(id) = used.last() else { return Ok(()) };
                msg = Some(parse(json!({"id": id, "result": 1})));
            }
            "reply text id" => {
                let Some(a) = open.first() else { return Ok(()) };
                msg = Some(parse(json!({"id": a.id.to_string(), "result": 1})));
            }
            "client request with that id" => {
                let Some(a) = open.first() else { return Ok(()) };
                if deferred.iter().any(|(_, i)| *i == a.id) {
                    return Ok(());
                }
                k += 1;
                let t = format!("d{k}");
                want_log.push(format!("async {t}"));
                deferred.push((t.clone(), a.id.clone()));
                msg = Some(request(&a.id, "t/async", json!({"tag": t})));
            }
            _ => {
                if deferred.is_empty() {
                    return Ok(());
                }
                let (t, id) = deferred.remove(0);
                let sys = &mut m.sys;
                match mccore::rt::quietly(|| sys.complete(&t, Ok(json!(t)))) {
                    Ok(true) => {}
                    x => return Err(Fail::new("completion failed", format!("completion of {t}: {x:?}"))),
                }
                want_ans = Some((id, json!(t)));
            }
        }
        if op == "event asks" {
            let sys = &mut m.sys;
            match mccore::rt::quietly(|| sys.drain_events()) {
                Ok(Ok(())) => {}
                x => return Err(Fail::new("event: loop failed", format!("event: loop failed: {x:?}"))),
            }
        }
        if let Some(msg) = msg {
            m.run(op, vec![msg])?;
        }
        let mut asks = vec![];
        let mut answers = vec![];
        for o in m.sys.outputs() {
            if o.get("method").is_some() {
                asks.push(o);
            } else {
                answers.push(o);
            }
        }
        let tags: Vec<String> =
            asks.iter().map(|a| a["params"]["tag"].as_str().unwrap_or("?").to_string()).collect();
        if tags != want_asks || asks.iter().any(|a| a["method"] != "server/ask") {
            return Err(Fail::new(
                format!("{op}: requests to the client"),
                format!("{op}: expected requests {want_asks:?}, got {asks:?}"),
            ));
        }
        for a in asks {
            let id = a["id"].clone();
            if id.is_null() || seen.contains(&id) {
                return Err(Fail::new(
                    format!("{op}: request id is not fresh"),
                    format!("{op}: id {id} was used before: {seen:?}"),
                ));
            }
            seen.push(id.clone());
            open.push(Asked { id, tag: a["params"]["tag"].as_str().unwrap_or("?").into() });
        }
        let ok = match &want_ans {
            None => answers.is_empty(),
            Some((id, v)) => answers.len() == 1 && &answers[0]["id"] == id && &answers[0]["result"] == v,
        };
        if !ok {
            return Err(Fail::new(
                format!("{op}: answers"),
                format!("{op}: expected the answer {want_ans:?}, got {answers:?}"),
            ));
        }
        m.logs(op, &want_log)?;
        ch.observe((open.len(), used.len(), deferred.len(), op));
    }
    Ok(())
}

pub fn replies(ctx: &mut Ctx) {
    let d = ctx.by(5, 6);
    ctx.explore(
        "routing",
        "histories",
        &format!("all histories of up to {d} of: requests to the client (plain, chained from the reply handler, two at once, from an event), replies (ok, error, null; to unknown, used, textual ids), client requests that reuse a server id"),
        0,
        |ch| routing(ch, d),
    );
}

/// Messages and events that are all there before the loop runs.
fn order(ch: &mut Chooser, nm: usize, ne: usize) -> R {
    let mut m = Model::new(false, true, false);
    m.initialize(0)?;
    m.initialized()?;
    let mut want = vec![];
    let mut msgs = vec![];
    let mut evs: Vec<sync_ls::Event> = vec![];
    let mut want_ids = vec![];
    let mut late = vec![];
    for i in 0..nm {
        let c = ch.choose("message", 9);
        let t = format!("m{i}");
        let p = json!({"tag": t});
        msgs.push(match c {
            0 => break,
            1 => {
                want.push(format!("note {t}"));
                notif("t/note", p)
            }
            2 => {
                want.push(format!("rawNote {t}"));
                notif("t/rawNote", p)
            }
            3 => notif("t/nothing", p),
            4 => notif("t/note", json!([1])),
            5 => {
                want.push(format!("ok {t}"));
                want_ids.push(json!(i));
                request(&json!(i), "t/ok", p)
            }
            6 => {
                want_ids.push(json!(i));
                request(&json!(i), "t/unknown", p)
            }
            7 => parse(json!({"id": 4711, "result": 3})),
            _ => notif("initialized", json!({})),
        });
        ch.note(|| format!("message {t}: {c}"));
    }
    for i in 0..ne {
        let c = ch.choose("event", 6);
        let t = format!("e{i}");
        ch.note(|| format!("event {t}: {c}"));
        evs.push(match c {
            0 => break,
            1 => {
                want.push(format!("event A {t}"));
                Box::new(EvA(t))
            }
            2 => {
                want.push(format!("event B {t}"));
                Box::new(EvB(t))
            }
            3 => Box::new(EvUnknown),
            // A message that arrives while the event is handled comes next.
            4 => {
                want.push(format!("event B inject:{t}"));
                want.push(format!("note {t}"));
                Box::new(EvB(format!("inject:{t}")))
            }
            _ => {
                want.push(format!("event B send:{t}"));
                late.push(format!("event A {t}"));
                Box::new(EvB(format!("send:{t}")))
            }
        });
    }
    let sys = &mut m.sys;
    match mccore::rt::quietly(|| sys.feed_both(msgs, evs)) {
        Ok(Ok(())) => {}
        x => return Err(Fail::new("loop failed", format!("loop failed: {x:?}"))),
    }
    m.logs("messages and events", &want)?;
    let ids: Vec<Value> = m.sys.outputs().iter().map(|o| o["id"].clone()).collect();
    if ids != want_ids {
        return Err(Fail::new("answers out of order", format!("expected answers {want_ids:?}, got {ids:?}")));
    }
    // What the handlers sent to the server itself.
    let sys = &mut m.sys;
    match mccore::rt::quietly(|| sys.drain_events()) {
        Ok(Ok(())) => {}
        x => return Err(Fail::new("loop failed", format!("loop failed: {x:?}"))),
    }
    m.logs("events sent by handlers", &late)?;
    ch.observe(want);
    Ok(())
}

pub fn ordering(ctx: &mut Ctx) {
    let states = [L::Init, L::Inited, L::Ev, L::Note, L::RawNote, L::Shutdown, L::Exit];
    let d = ctx.by(5, 7);
    ctx.explore(
        "events in every state",
        "histories",
        &format!("all histories of up to {d} of {states:?} from a fresh server"),
        0,
        |ch| life(ch, &states, d, false, true, false, false),
    );
    let (a, b) = ctx.by((3, 3), (4, 4));
    ctx.explore(
        "order",
        "histories",
        &format!("all queues of up to {a} messages (notifications with a good, failing, missing handler or malformed parameters, requests, replies) and {b} events (two kinds with and one without a handler, some injecting messages or further events)"),
        0,
        |ch| order(ch, a, b),
    );
}

/// Every error code that the protocols name, and borders.
pub const CODES: [i32; 20] = [
    -32700, -32600, -32601, -32602, -32603, -32099, -32002, -32001, -32000, -32899, -32803, -32802, -32801, -32800, 0,
    1, -1, 404, i32::MIN, i32::MAX,
];
pub const MESSAGES: [&str; 4] = ["no", "", "two\nlines\r\n\r\n{}", "\u{e9}\u{2028}\u{1f600}\"\\"];

pub fn outcomes() -> Vec<Value> {
    let mut res: Vec<Value> = [
        json!(null), json!(false), json!(true), json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(""), json!("x"), json!([]),
        json!([null]), json!({}), json!({"error": null}), json!({"id": 1, "result": {"a": [1, {"b": "\r\n"}]}}),
    ]
    .into_iter()
    .map(|v| json!({"ok": v}))
    .collect();
    for c in CODES {
        for m in MESSAGES {
            res.push(json!({"code": c, "message": m}));
        }
    }
    res
}

/// What handlers answer reaches the client as it is, and leaves the rest of
/// the session alone.
pub fn values(ctx: &mut Ctx) {
    let outs = outcomes();
    let kinds = ["t/val", "t/rawVal", "c/val", "c/rawVal", "t/noteVal"];
    let hows = ["now", "done", "later"];
    let n = outs.len() * kinds.len() * hows.len();
    ctx.inputs(
        "answers of handlers",
        "all outcomes (14 shapes of results, 20 error codes with 4 messages) of typed, raw, command handlers and failing notifications, told at once, as a finished future or later, each among other requests",
        n as u64,
        |i, obs| {
            let i = i as usize;
            let (kind, how, out) = (kinds[i % 5], hows[i / 5 % 3], &outs[i / 15]);
            let mut p = out.clone();
            p["how"] = json!(how);
            p["tag"] = json!("v");
            let (a, b, c) = (json!(7), json!("7"), json!(8));
            let sent = match kind.strip_prefix("c/") {
                _ if kind == "t/noteVal" => notif(kind, p.clone()),
                Some(_) => request(&b, EXEC, json!({"command": kind, "arguments": [p]})),
                None => request(&b, kind, p.clone()),
            };
            obs.outcome((kind, how, out.get("code").is_some()));
            obs.nontrivial();
            let mut m = Model::new(false, true, false);
            m.initialize(0)?;
            m.initialized()?;
            m.run(kind, vec![request(&a, "t/ok", json!({"tag": "a"})), sent, request(&c, "t/ok", json!({"tag": "c"}))])?;
            let bad = |sig: &str, what: String| Err(Fail::new(format!("{kind}: {sig}"), format!("{kind} {p}: {what}")));
            let mut got = m.sys.outputs();
            let mut want = vec![(a, json!({"ok": "a"})), (b, out.clone()), (c, json!({"ok": "c"}))];
            if kind == "t/noteVal" {
                want.remove(1);
            } else if how == "later" {
                if got.len() != 2 {
                    return bad("answered before completion", format!("{got:?}"));
                }
                if !m.sys.complete("v", outcome(out)) {
                    return bad("handler did not run", String::new());
                }
                got.extend(m.sys.outputs());
            }
            for (id, want) in &want {
                let of: Vec<_> = got.iter().filter(|o| &o["id"] == id).collect();
                let [o] = of[..] else { return bad("answers", format!("{got:?}, expected one to {id}")) };
                let ok = match want.get("ok") {
                    Some(v) => o.get("result") == Some(v) && o.get("error").is_none(),
                    None => {
                        let e = &o["error"];
                        o.get("result").is_none() && e["code"] == want["code"] && e["message"] == want["message"]
                    }
                };
                if !ok {
                    return bad("another answer", format!("{o}, expected {want}"));
                }
            }
            if got.len() != want.len() {
                return bad("answers", format!("{got:?}"));
            }
            Ok(())
        },
    );
}
