//! Histories of the debug adapter against a reference model.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use crossbeam_channel::{unbounded, Receiver, Sender};
use mccore::{Chooser, Ctx, Fail};
use serde_json::{json, Value};
use sync_ls::*;

use crate::base::{outcome, dap_base, err, settle, with_rt, wire, Deferred, DeferredMap, EvA, EvUnknown, InitParams, Log, P};

type R = Result<(), Fail>;

pub struct DSrv {
    log: Log,
    client: TypedLspClient<DSrv>,
    deferred: DeferredMap,
}

pub struct DInit {
    log: Log,
    deferred: DeferredMap,
    client: LspClient,
    defer_init: bool,
}

impl Initializer for DInit {
    type I = InitParams;
    type S = DSrv;
    fn initialize(self, req: InitParams) -> (DSrv, AnySchedulableResponse) {
        self.log.lock().unwrap().push("initialize".into());
        let s = DSrv {
            log: self.log.clone(),
            client: self.client.to_typed(),
            deferred: self.deferred.clone(),
        };
        if self.defer_init {
            let fut = s.later("init".into());
            return (s, fut);
        }
        if req.ok {
            (s, just_ok(json!({"supports": true})))
        } else {
            (s, Err(err(1, "init failed")))
        }
    }
}

impl DSrv {
    fn note(&self, s: impl Into<String>) {
        self.log.lock().unwrap().push(s.into());
    }
    fn later(&self, tag: String) -> SchedulableResponse<Value> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.deferred.lock().unwrap().insert(tag, Deferred::Async(tx));
        just_future(async move { rx.await.unwrap_or_else(|_| Err(err(-32099, "dropped"))) })
    }
}

macro_rules! reqs {
    ($($name:ident = $m:literal;)*) => {$(
        pub enum $name {}
        impl dapts::IRequest for $name {
            type Arguments = P;
            type Response = Value;
            const COMMAND: &'static str = $m;
        }
    )*};
}
reqs! {
    ROk = "ok"; RErr = "err"; RAsync = "async"; RNone = "none"; RSelf = "self"; RDefer = "defer";
    RTyped = "typed"; REvent = "event";
}
macro_rules! vals {
    ($($name:ident = $m:literal;)*) => {$(
        pub enum $name {}
        impl dapts::IRequest for $name {
            type Arguments = Value;
            type Response = Value;
            const COMMAND: &'static str = $m;
        }
    )*};
}
vals! { RVal = "val"; RRawVal = "rawVal"; }
pub enum EvOut {}
impl dapts::IEvent for EvOut {
    const EVENT: &'static str = "out";
    type Body = Value;
}

fn tag(v: &Value) -> String {
    v["tag"].as_str().unwrap_or("?").to_owned()
}

fn seq(id: &RequestId) -> i64 {
    serde_json::to_value(id).unwrap().as_i64().expect("a number")
}

fn build(init: DInit, client: LspClient) -> LsDriver<DapMessage, DInit> {
    let mut b = DapBuilder::new(init, client)
        .with_event::<EvA>(&EvA(String::new()), |mut s, e| {
            match s.ready() {
                Some(s) => s.note(format!("internal {}", e.0)),
                None => {
                    if let ServiceState::Uninitialized(Some(i)) = s {
                        i.log.lock().unwrap().push(format!("early internal {}", e.0));
                    }
                }
            }
            Ok(())
        })
        .with_request::<ROk>(|s, p| {
            s.note(format!("ok {}", p.tag));
            just_ok(json!(p.tag))
        })
        .with_request::<RErr>(|s, p| {
            s.note(format!("err {}", p.tag));
            Err(err(5, "no"))
        })
        .with_request::<RAsync>(|s, p| {
            s.note(format!("async {}", p.tag));
            s.later(p.tag)
        })
        .with_request::<REvent>(|s, p| {
            s.note(format!("event {}", p.tag));
            s.client.send_dap_event::<EvOut>(json!(p.tag));
            just_ok(json!(p.tag))
        })
        .with_raw_request::<RNone>(|s, _id, v| {
            s.note(format!("none {}", tag(&v)));
            Ok(None)
        })
        .with_raw_request::<RSelf>(|s, id, v| {
            s.note(format!("self {}", tag(&v)));
            let r = dap::Response::success(seq(&id), json!(tag(&v)));
            s.client.respond(id, r.into());
            Ok(Some(()))
        })
        .with_raw_request::<RDefer>(|s, id, v| {
            s.note(format!("defer {}", tag(&v)));
            s.deferred.lock().unwrap().insert(tag(&v), Deferred::Raw(id));
            Ok(Some(()))
        })
        .with_request_::<RTyped>(|s, id, p| {
            s.note(format!("typed {}", p.tag));
            s.client.clone().schedule(id, just_ok(json!(p.tag)))
        })
        .with_request::<RVal>(|s, v| match v["how"].as_str() {
            Some("now") => outcome(&v).and_then(just_ok),
            Some("done") => just_result(outcome(&v)),
            _ => s.later(tag(&v)),
        })
        .with_raw_request::<RRawVal>(|s, id, v| {
            match v["how"].as_str() {
                Some("now") => {
                    let v = outcome(&v)?;
                    let r = dap::Response::success(seq(&id), v);
                    s.client.respond(id, r.into());
                }
                Some("done") => s.client.respond_result(id, outcome(&v)),
                _ => {
                    s.deferred.lock().unwrap().insert(tag(&v), Deferred::Raw(id));
                }
            }
            Ok(Some(()))
        })
        .with_raw_request::<dapts::request::Disconnect>(|s, id, v| {
            s.note("disconnect");
            match v["how"].as_str() {
                Some("fail") => Err(err(5, "no")),
                Some("later") => {
                    s.deferred.lock().unwrap().insert(tag(&v), Deferred::Raw(id));
                    Ok(Some(()))
                }
                Some("self") => {
                    let r = dap::Response::success(seq(&id), Value::Null);
                    s.client.respond(id, r.into());
                    Ok(Some(()))
                }
                _ => Ok(None),
            }
        });
    b.notif_handlers.insert(
        "note",
        Box::new(|s: &mut DSrv, v| {
            s.note(format!("note {}", tag(&v)));
            Ok(())
        }),
    );
    b.notif_handlers.insert("noteVal", Box::new(|_: &mut DSrv, v| outcome(&v).map(|_| ())));
    b.notif_handlers.insert(
        "badNote",
        Box::new(|s: &mut DSrv, v| {
            s.note(format!("badNote {}", tag(&v)));
            Err(err(5, "failing event"))
        }),
    );
    b.build()
}

struct DSys {
    driver: LsDriver<DapMessage, DInit>,
    client: LspClient,
    _root: LspClientRoot,
    out: Receiver<Message>,
    log: Log,
    deferred: DeferredMap,
    rx: TConnectionRx<DapMessage>,
    ev_tx: Sender<Event>,
    ev_rx: Receiver<Event>,
    seen: usize,
}

impl DSys {
    fn new(defer_init: bool) -> DSys {
        let (mut tx, rx) = dap_base();
        let (out_tx, out) = unbounded();
        let (ev_tx, ev_rx) = unbounded();
        tx.lsp = out_tx;
        tx.event = ev_tx.clone();
        let root = LspClientRoot::new(with_rt(|rt| rt.handle().clone()), tx);
        let client = root.weak();
        let log: Log = Default::default();
        let deferred: DeferredMap = Arc::new(Mutex::new(BTreeMap::new()));
        let init = DInit { log: log.clone(), deferred: deferred.clone(), client: client.clone(), defer_init };
        let driver = build(init, client.clone());
        DSys { driver, client, _root: root, out, log, deferred, rx, ev_tx, ev_rx, seen: 0 }
    }

    fn feed(&mut self, msgs: Vec<DapMessage>) -> anyhow::Result<()> {
        let (tx, rx) = unbounded();
        for m in msgs {
            tx.send(Message::Dap(m)).unwrap();
        }
        tx.send(Message::Dap(last())).unwrap();
        drop(tx);
        let mut inbox = self.rx.clone();
        inbox.lsp = rx.clone();
        inbox.event = self.ev_rx.clone();
        self.driver.start_(inbox)?;
        anyhow::ensure!(rx.is_empty(), "the loop ended by itself");
        Ok(())
    }

    /// The loop with messages that wait and events that wait.
    fn feed_both(&mut self, msgs: Vec<DapMessage>, evs: Vec<Event>) -> anyhow::Result<()> {
        let (tx, rx) = unbounded();
        for m in msgs {
            tx.send(Message::Dap(m)).unwrap();
        }
        tx.send(Message::Dap(last())).unwrap();
        let (etx, erx) = unbounded::<Event>();
        for e in evs {
            etx.send(e).unwrap();
        }
        etx.send(Box::new(EvUnknown)).unwrap();
        drop(etx);
        let mut inbox = self.rx.clone();
        inbox.lsp = rx.clone();
        inbox.event = erx.clone();
        let res = self.driver.start_(inbox);
        drop(tx);
        res?;
        anyhow::ensure!(rx.is_empty() && erx.is_empty(), "the loop ended by itself");
        Ok(())
    }

    fn outputs(&mut self) -> Vec<Value> {
        settle();
        self.out.try_iter().map(wire).collect()
    }
    fn logs(&mut self) -> Vec<String> {
        let l = self.log.lock().unwrap();
        let r = l[self.seen..].to_vec();
        self.seen = l.len();
        r
    }
}

/// An event nobody handles, which shows that the loop went on.
fn last() -> DapMessage {
    parse(json!({"type": "event", "seq": 1, "event": "last"}))
}

fn parse(v: Value) -> DapMessage {
    serde_json::from_value(v).unwrap()
}
fn req(seq: i64, command: &str, args: Value) -> DapMessage {
    parse(json!({"type": "request", "seq": seq, "command": command, "arguments": args}))
}

/// Sequence numbers of every magnitude; the model only uses fresh ones.
const SEQS: [i64; 12] = [
    1,
    2147483647,
    2147483648,
    4294967297,
    -2147483648,
    -2147483649,
    9007199254740993,
    i64::MAX,
    i64::MIN,
    0,
    -1,
    4294967296 + 2147483647,
];

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum St {
    Uninit,
    Ready,
    Shut,
}

#[derive(Clone)]
enum Ans {
    Ok(Value),
    Err,
    Later,
}

const OPS: &[&str] = &[
    "end", "initialize", "initialize fails", "initialize malformed", "ok", "async", "err", "none", "self",
    "defer", "typed", "event", "malformed", "unknown", "disconnect", "note", "badNote", "strayNote",
    "internal", "unknown internal", "reply", "complete first", "fail last",
];

fn adapter(ch: &mut Chooser, ops: &[&'static str], depth: usize, ready: bool, defer_init: bool, rot: usize) -> R {
    let mut sys = DSys::new(defer_init);
    let mut st = St::Uninit;
    let mut pending: Vec<(String, i64)> = vec![];
    let mut n = 0usize;
    let mut seen_ev: Vec<i64> = vec![];
    let mut step = 0;
    loop {
        let op = if ready && step == 0 {
            "initialize"
        } else if step >= depth + usize::from(ready) {
            // Completes what is left, in every order.
            if pending.is_empty() {
                break;
            }
            "complete any"
        } else {
            ops[ch.choose("op", ops.len())]
        };
        step += 1;
        if op == "end" {
            step = depth + 1;
            continue;
        }
        ch.note(|| op.into());
        let t = format!("q{n}");
        let seq = match n + rot {
            i if i < SEQS.len() => SEQS[i],
            i => 100 + i as i64,
        };
        let mut want_log: Vec<String> = vec![];
        let mut want: Option<(i64, Ans, String)> = None;
        let mut event_out = None;
        let mut msg = None;
        let mut request = |command: &str, args: Value| {
            n += 1;
            msg = Some(req(seq, command, args));
        };
        match op {
            "initialize" | "initialize fails" | "initialize malformed" => {
                let args = match op {
                    "initialize" => json!({"ok": true}),
                    "initialize fails" => json!({"ok": false}),
                    _ => json!({"nope": 1}),
                };
                request("initialize", args);
                let ans = match st {
                    St::Uninit if op == "initialize malformed" => Ans::Err,
                    St::Uninit => {
                        st = St::Ready;
                        want_log.push("initialize".into());
                        if defer_init {
                            Ans::Later
                        } else if op == "initialize" {
                            Ans::Ok(json!({"supports": true}))
                        } else {
                            Ans::Err
                        }
                    }
                    _ => Ans::Err,
                };
                want = Some((seq, ans, "init".into()));
            }
            "ok" | "async" | "err" | "none" | "self" | "defer" | "typed" | "event" => {
                request(op, json!({"tag": t}));
                let ans = if st != St::Ready {
                    Ans::Err
                } else {
                    want_log.push(format!("{op} {t}"));
                    match op {
                        "async" | "defer" => Ans::Later,
                        "err" => Ans::Err,
                        "none" => Ans::Ok(Value::Null),
                        _ => {
                            if op == "event" {
                                event_out = Some(t.clone());
                            }
                            Ans::Ok(json!(t))
                        }
                    }
                };
                want = Some((seq, ans, t.clone()));
            }
            "malformed" => {
                request("ok", json!([1]));
                want = Some((seq, Ans::Err, t.clone()));
            }
            "unknown" => {
                request("nothing", json!({}));
                want = Some((seq, Ans::Err, t.clone()));
            }
            "disconnect" | "disconnect fail" | "disconnect later" | "disconnect self" => {
                let how = op.strip_prefix("disconnect").unwrap().trim();
                request("disconnect", json!({"how": how, "tag": t}));
                let ans = if st == St::Ready {
                    want_log.push("disconnect".into());
                    st = St::Shut;
                    match how {
                        "fail" => Ans::Err,
                        "later" => Ans::Later,
                        _ => Ans::Ok(Value::Null),
                    }
                } else {
                    Ans::Err
                };
                want = Some((seq, ans, t.clone()));
            }
            "note" | "badNote" | "strayNote" => {
                msg = Some(parse(json!({"type": "event", "seq": 3, "event": op, "body": {"tag": "n"}})));
                if st == St::Ready && op != "strayNote" {
                    want_log.push(format!("{op} n"));
                }
            }
            "internal" => {
                sys.ev_tx.send(Box::new(EvA("x".into()))).unwrap();
                match st {
                    St::Uninit => want_log.push("early internal x".into()),
                    St::Ready => want_log.push("internal x".into()),
                    St::Shut => {}
                }
            }
            "unknown internal" => sys.ev_tx.send(Box::new(EvUnknown)).unwrap(),
            "reply" => {
                msg = Some(parse(json!({"type": "response", "request_seq": 0, "success": true, "seq": 1, "command": "x"})));
            }
            _ => {
                if pending.is_empty() {
                    return Ok(());
                }
                let (i, ok) = match op {
                    "complete first" => (0, true),
                    "fail last" => (pending.len() - 1, false),
                    _ => (ch.choose("completion order", pending.len()), true),
                };
                let (t, seq) = pending.remove(i);
                let d = sys.deferred.lock().unwrap().remove(&t);
                let client = sys.client.clone();
                let res = mccore::rt::quietly(|| match d {
                    None => false,
                    Some(Deferred::Async(tx)) => {
                        let _ = tx.send(if ok { Ok(json!(t)) } else { Err(err(7, "late")) });
                        true
                    }
                    Some(Deferred::Raw(id)) => {
                        if ok {
                            client.respond_result(id, Ok(json!(t)));
                        } else {
                            client.respond_result::<Value>(id, Err(err(7, "late")));
                        }
                        true
                    }
                });
                match res {
                    Ok(true) => {}
                    Ok(false) => return Err(Fail::new("handler did not run", format!("{t} is not deferred"))),
                    Err(p) => return Err(Fail::new("completion panics", p)),
                }
                want = Some((seq, if ok { Ans::Ok(json!(t)) } else { Ans::Err }, t));
            }
        }
        let s = &mut sys;
        let res = if op.contains("internal") {
            mccore::rt::quietly(|| {
                let evs: Vec<Event> = s.ev_rx.try_iter().collect();
                s.feed_both(vec![], evs)
            })
        } else if let Some(m) = msg {
            mccore::rt::quietly(|| s.feed(vec![m]))
        } else {
            Ok(Ok(()))
        };
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(Fail::new(format!("loop error on {op}"), format!("{op}: {e}"))),
            Err(p) => return Err(Fail::new(format!("main loop panics on {op}"), format!("{op}: {p}"))),
        }
        let mut answers = vec![];
        let mut events = vec![];
        for o in sys.outputs() {
            if o["type"] == "event" {
                events.push(o);
            } else {
                answers.push(o);
            }
        }
        let bad = |why: &str| {
            Err(Fail::new(
                format!("{op}: {why}"),
                format!("{op} in state {st:?} (seq {:?}): {why}: {answers:?}", want.as_ref().map(|w| w.0)),
            ))
        };
        match &want {
            None if answers.is_empty() => {}
            None => return bad("unexpected answer"),
            Some((_, Ans::Later, _)) if !answers.is_empty() => return bad("answered before completion"),
            Some((seq, Ans::Later, t)) => pending.push((t.clone(), *seq)),
            Some((seq, ans, _)) => {
                if answers.len() != 1 {
                    return bad(&format!("{} answers", answers.len()));
                }
                let a = &answers[0];
                if a["type"] != "response" || a["request_seq"] != json!(seq) {
                    return bad("answer to another request");
                }
                match ans {
                    Ans::Ok(v) => {
                        if a["success"] != true {
                            return bad("unexpected failure");
                        }
                        if a.get("body").unwrap_or(&Value::Null) != v {
                            return bad("answer of another request");
                        }
                    }
                    _ => {
                        if a["success"] != false || a["message"].as_str().unwrap_or("").is_empty() {
                            return bad("expected a failure with a message");
                        }
                    }
                }
            }
        }
        match (&event_out, &events[..]) {
            (None, []) => {}
            (Some(t), [e]) if e["event"] == "out" && e["body"] == json!(t) => {
                let q = e["seq"].as_i64().unwrap_or(-1);
                if seen_ev.contains(&q) {
                    return Err(Fail::new("event sequence number reused", format!("{e}")));
                }
                seen_ev.push(q);
            }
            _ => return Err(Fail::new(format!("{op}: events"), format!("{op}: expected {event_out:?}, got {events:?}"))),
        }
        let got = sys.logs();
        if got != want_log {
            return Err(Fail::new(
                format!("{op}: handlers that ran"),
                format!("{op} in state {st:?}: expected handlers {want_log:?}, ran {got:?}"),
            ));
        }
        ch.observe((st, pending.len(), op));
    }
    if sys.client.has_pending_requests() {
        return Err(Fail::new("requests stay pending", "every request is answered, but some are still pending"));
    }
    Ok(())
}

/// Queues of messages and events.
fn order(ch: &mut Chooser, nm: usize, ne: usize) -> R {
    let mut sys = DSys::new(false);
    sys.feed(vec![req(1, "initialize", json!({"ok": true}))]).unwrap();
    sys.outputs();
    sys.logs();
    let (mut want, mut seqs, mut msgs) = (vec![], vec![], vec![]);
    let mut evs: Vec<Event> = vec![];
    for i in 0..nm {
        let t = format!("m{i}");
        let s = 10 + i as i64;
        let ev = |e: &str| parse(json!({"type": "event", "seq": 3, "event": e, "body": {"tag": t}}));
        msgs.push(match ch.choose("message", 7) {
            0 => break,
            1 => {
                want.push(format!("ok {t}"));
                seqs.push(json!(s));
                req(s, "ok", json!({"tag": t}))
            }
            2 => {
                want.push(format!("note {t}"));
                ev("note")
            }
            3 => {
                want.push(format!("badNote {t}"));
                ev("badNote")
            }
            4 => ev("strayNote"),
            5 => {
                seqs.push(json!(s));
                req(s, "nothing", json!({}))
            }
            _ => parse(json!({"type": "response", "request_seq": 5, "success": true})),
        });
    }
    for i in 0..ne {
        let t = format!("e{i}");
        evs.push(match ch.choose("event", 3) {
            0 => break,
            1 => {
                want.push(format!("internal {t}"));
                Box::new(EvA(t))
            }
            _ => Box::new(EvUnknown),
        });
    }
    let s = &mut sys;
    match mccore::rt::quietly(|| s.feed_both(msgs, evs)) {
        Ok(Ok(())) => {}
        x => return Err(Fail::new("loop failed", format!("loop failed: {x:?}"))),
    }
    let got = sys.logs();
    if got != want {
        return Err(Fail::new("order of handlers", format!("expected {want:?}, ran {got:?}")));
    }
    let ids: Vec<Value> = sys.outputs().iter().map(|o| o["request_seq"].clone()).collect();
    if ids != seqs {
        return Err(Fail::new("order of answers", format!("expected {seqs:?}, got {ids:?}")));
    }
    ch.observe(want);
    Ok(())
}

/// A session of many requests, some of which stay open for long.
fn long(ch: &mut Chooser, n: usize) -> R {
    let first = *ch.pick("first sequence number", &[2i64, 2147483647 - 5, 4294967296 - 5]);
    let late = *ch.pick("answered after", &[1usize, 9]);
    let mut sys = DSys::new(false);
    sys.feed(vec![req(1, "initialize", json!({"ok": true}))]).unwrap();
    sys.outputs();
    sys.logs();
    let mut events = std::collections::HashSet::new();
    let mut open: std::collections::VecDeque<(i64, String)> = Default::default();
    let bad = |sig: &str, m: String| Err(Fail::new(format!("long session: {sig}"), m));
    for i in 0..n {
        let (a, b) = (first + 2 * i as i64, first + 2 * i as i64 + 1);
        let (ta, tb) = (format!("a{i}"), format!("b{i}"));
        let s = &mut sys;
        match mccore::rt::quietly(|| s.feed(vec![req(a, "event", json!({"tag": ta})), req(b, "async", json!({"tag": tb}))])) {
            Ok(Ok(_)) => {}
            x => return bad("loop failed", format!("after {i} rounds: {x:?}")),
        }
        open.push_back((b, tb.clone()));
        let done = if open.len() > late { open.pop_front() } else { None };
        if let Some((_, t)) = &done {
            let Some(Deferred::Async(tx)) = sys.deferred.lock().unwrap().remove(t) else {
                return bad("handler did not run", t.clone());
            };
            let _ = tx.send(Ok(json!(t)));
        }
        let outs = sys.outputs();
        let (mut answers, mut evs) = (vec![], 0);
        for o in &outs {
            if o["type"] == "event" {
                evs += 1;
                if o["body"] != json!(ta) || !events.insert(o["seq"].as_i64()) {
                    return bad("events", format!("round {i}: {o}, its number may have been used before"));
                }
            } else {
                answers.push((o["request_seq"].clone(), o["success"].clone(), o["body"].clone()));
            }
        }
        let mut want = vec![(json!(a), json!(true), json!(ta))];
        if let Some((q, t)) = done {
            want.push((json!(q), json!(true), json!(t)));
        }
        if evs != 1 || answers != want {
            return bad("answers", format!("round {i}: {outs:?}, expected {want:?} and one event"));
        }
        let log = sys.logs();
        if log != [format!("event {ta}"), format!("async {tb}")] {
            return bad("handlers that ran", format!("round {i}: {log:?}"));
        }
    }
    ch.observe((first, late));
    Ok(())
}

pub fn dap(ctx: &mut Ctx) {
    values(ctx);
    let n = ctx.by(34_000, 200_000);
    ctx.explore("long sessions", "histories", &format!("sessions of {} requests and {n} events of the adapter, half of whose requests are answered rounds later", 2 * n), 0, |ch| {
        long(ch, n)
    });
    let d = ctx.by(4, 5);
    ctx.explore("histories", "histories", &format!("all histories of up to {d} of {OPS:?} of a fresh debug adapter, then every completion order, with sequence numbers of all magnitudes"), 0, |ch| {
        adapter(ch, OPS, d, false, false, 0)
    });
    ctx.explore("ready histories", "histories", &format!("the same of an initialized one"), 0, |ch| {
        adapter(ch, OPS, d, true, false, 1)
    });
    let few = ["end", "initialize", "ok", "async", "defer", "disconnect", "complete first", "fail last", "note"];
    let d = ctx.by(6, 7);
    ctx.explore("lifecycle", "histories", &format!("all histories of up to {d} of {few:?}"), 0, |ch| {
        adapter(ch, &few, d, false, false, 5)
    });
    let d = ctx.by(6, 7);
    ctx.explore("deferred initialize", "histories", &format!("all histories of up to {d} of {few:?} where initialize is answered later"), 0, |ch| {
        adapter(ch, &few, d, false, true, 2)
    });
    let ends = [
        "end", "disconnect", "disconnect fail", "disconnect later", "disconnect self", "ok", "async", "note", "internal",
        "initialize", "complete first", "fail last",
    ];
    let d = ctx.by(4, 5);
    ctx.explore("endings", "histories", &format!("all histories of up to {d} of {ends:?} of an initialized one"), 0, |ch| {
        adapter(ch, &ends, d, true, false, 3)
    });
    let (a, b) = ctx.by((4, 3), (5, 4));
    ctx.explore("order", "histories", &format!("all queues of up to {a} messages and {b} internal events of an initialized debug adapter"), 0, |ch| {
        order(ch, a, b)
    });
}

/// What handlers answer reaches the client as it is, and leaves the rest of
/// the session alone.
fn values(ctx: &mut Ctx) {
    let outs = crate::lsp::outcomes();
    let (kinds, hows) = (["val", "rawVal", "noteVal"], ["now", "done", "later"]);
    ctx.inputs(
        "answers of handlers",
        "all outcomes (14 shapes of results, 20 error codes with 4 messages) of typed and raw handlers and failing event handlers, told at once, as a finished future or later, each among other requests",
        (outs.len() * 9) as u64,
        |i, obs| {
            let i = i as usize;
            let (kind, how, out) = (kinds[i % 3], hows[i / 3 % 3], &outs[i / 9]);
            let mut p = out.clone();
            p["how"] = json!(how);
            p["tag"] = json!("v");
            let sent = if kind == "noteVal" {
                parse(json!({"type": "event", "seq": 3, "event": kind, "body": p}))
            } else {
                req(11, kind, p.clone())
            };
            obs.outcome((kind, how, out.get("code").is_some()));
            obs.nontrivial();
            let bad = |sig: &str, what: String| Err(Fail::new(format!("{kind}: {sig}"), format!("{kind} {p}: {what}")));
            let mut sys = DSys::new(false);
            sys.feed(vec![req(1, "initialize", json!({"ok": true}))]).unwrap();
            sys.outputs();
            let ok = |t: &str, q: i64| req(q, "ok", json!({"tag": t}));
            if let Err(e) = sys.feed(vec![ok("a", 10), sent, ok("c", 12)]) {
                return bad("loop failed", e.to_string());
            }
            let mut got = sys.outputs();
            let mut want = vec![(10, json!({"ok": "a"})), (11, out.clone()), (12, json!({"ok": "c"}))];
            if kind == "noteVal" {
                want.remove(1);
            } else if how == "later" {
                if got.len() != 2 {
                    return bad("answered before completion", format!("{got:?}"));
                }
                let Some(d) = sys.deferred.lock().unwrap().remove("v") else {
                    return bad("handler did not run", String::new());
                };
                match d {
                    Deferred::Async(tx) => {
                        let _ = tx.send(outcome(out));
                    }
                    Deferred::Raw(id) => sys.client.respond_result(id, outcome(out)),
                }
                got.extend(sys.outputs());
            }
            for (q, want) in &want {
                let of: Vec<_> = got.iter().filter(|o| o["request_seq"] == json!(q)).collect();
                let [o] = of[..] else { return bad("answers", format!("{got:?}, expected one to {q}")) };
                let good = match want.get("ok") {
                    Some(v) => o["success"] == true && o.get("body").unwrap_or(&Value::Null) == v,
                    None => o["success"] == false && o["message"] == want["message"],
                };
                if !good || o["type"] != "response" {
                    return bad("another answer", format!("{o}, expected {want}"));
                }
            }
            if got.len() != want.len() {
                return bad("answers", format!("{got:?}"));
            }
            Ok(())
        },
    );
}
