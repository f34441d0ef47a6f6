//! The whole language server on a transport in memory, in every schedule.

use std::sync::{Arc, Mutex};

use mccore::rt::{self, End};
use mccore::{Chooser, Ctx, Fail};
use serde_json::{json, Value};
use sync_ls::lsp::Response;
use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::*;

use crate::world::*;

pub struct Srv {
    world: World,
    client: TypedLspClient<Srv>,
}
pub struct Init {
    world: World,
    client: LspClient,
}
#[derive(serde::Deserialize)]
pub struct InitParams {}

#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct P {
    pub tag: String,
}

fn err(code: i32, msg: &str) -> ResponseError {
    ResponseError { code, message: msg.into(), data: None }
}

impl Initializer for Init {
    type I = InitParams;
    type S = Srv;
    fn initialize(self, _: InitParams) -> (Srv, AnySchedulableResponse) {
        let s = Srv { world: self.world, client: self.client.to_typed() };
        (s, just_ok(json!("init")))
    }
}

macro_rules! reqs {
    ($($name:ident = $m:literal;)*) => {$(
        pub enum $name {}
        impl lsp_types::request::Request for $name {
            type Params = P;
            type Result = Value;
            const METHOD: &'static str = $m;
        }
        impl dapts::IRequest for $name {
            type Arguments = P;
            type Response = Value;
            const COMMAND: &'static str = $m;
        }
    )*};
}
reqs! {
    ROk = "ok"; RAsync = "async"; RSleep = "sleep"; RDefer = "defer"; RErr = "err"; RLateErr = "lateErr";
    RTwice = "twice"; RServer = "server/ask"; RAsk = "ask"; RAsks = "asks"; RChain = "chain"; REvents = "events";
}
pub enum NNote {}
impl lsp_types::notification::Notification for NNote {
    type Params = P;
    const METHOD: &'static str = "note";
}
pub enum NOut {}
impl lsp_types::notification::Notification for NOut {
    type Params = P;
    const METHOD: &'static str = "out";
}
pub struct Ev(pub String);

fn ask(client: &TypedLspClient<Srv>, tag: String) {
    let t = tag.clone();
    client.send_lsp_request::<RServer>(P { tag }, move |s: &mut Srv, r: Response| {
        s.world.log(format!("reply {t} {}", r.result.unwrap_or(Value::Null)));
        // A reply that makes the server ask again.
        if let Some(next) = t.strip_prefix('+') {
            ask(&s.client, next.to_owned());
        }
    });
}

/// What both builders share.
macro_rules! handlers {
    ($b:expr) => {
        $b.with_event::<Ev>(&Ev(String::new()), |mut s, e| {
            if let Some(s) = s.ready() {
                s.world.log(format!("event {}", e.0));
            }
            Ok(())
        })
        .with_request::<ROk>(|s, p| {
            s.world.log(format!("ok {}", p.tag));
            just_ok(json!(p.tag))
        })
        .with_request::<RErr>(|_s, _p| Err(err(-1, "early")))
        .with_request::<RAsync>(|s, p| {
            s.world.log(format!("async {}", p.tag));
            just_future(async move {
                tokio::task::yield_now().await;
                Ok(json!(p.tag))
            })
        })
        .with_request::<RLateErr>(|_s, p| {
            just_future(async move {
                tokio::task::yield_now().await;
                Err(err(-2, &p.tag))
            })
        })
        .with_request::<RSleep>(|_s, p| {
            just_future(async move {
                tokio::time::sleep(std::time::Duration::from_millis(25)).await;
                Ok(json!(p.tag))
            })
        })
    };
}

fn build_lsp(init: Init, client: LspClient) -> LsDriver<LspMessage, Init> {
    handlers!(LspBuilder::new(init, client))
        .with_request_::<RDefer>(|s, id, p| {
            let c = s.client.clone();
            rt::spawn("worker", move || c.respond_lsp(Response::new_ok(id, json!(p.tag))));
            Ok(Some(()))
        })
        // Two workers race for the answer.
        .with_request_::<RTwice>(|s, id, p| {
            for _ in 0..2 {
                let (c, id, p) = (s.client.clone(), id.clone(), p.clone());
                rt::spawn("worker", move || c.respond_lsp(Response::new_ok(id, json!(p.tag))));
            }
            Ok(Some(()))
        })
        .with_request::<RAsk>(|s, p| {
            ask(&s.client, p.tag.clone());
            just_ok(json!(p.tag))
        })
        // Two workers ask the client, one of them twice.
        .with_request::<RAsks>(|s, p| {
            for i in 0..2 {
                let (c, p) = (s.client.clone(), p.clone());
                rt::spawn("asker", move || {
                    for j in 0..=i {
                        ask(&c, format!("{}{i}{j}", p.tag));
                    }
                });
            }
            just_ok(json!(p.tag))
        })
        // A worker and the main loop ask, and the replies make them ask again.
        .with_request::<RChain>(|s, p| {
            let (c, t) = (s.client.clone(), p.tag.clone());
            rt::spawn("asker", move || ask(&c, format!("+{t}w")));
            ask(&s.client, format!("++{}", p.tag));
            just_ok(json!(p.tag))
        })
        .with_request::<REvents>(|s, p| {
            for i in 0..2 {
                let (c, p) = (s.client.clone(), p.clone());
                rt::spawn("sender", move || {
                    for j in 0..2 {
                        c.send_event(Ev(format!("{}{i}{j}", p.tag)));
                    }
                });
            }
            just_ok(json!(p.tag))
        })
        // A worker answers while the server shuts down.
        .with_raw_request::<lsp_types::request::Shutdown>(|s, id, v| {
            let c = s.client.clone();
            rt::spawn("worker", move || c.respond_lsp(Response::new_ok(id, v["tag"].clone())));
            Ok(Some(()))
        })
        .with_notification::<NNote>(|s, p| {
            s.world.log(format!("note {}", p.tag));
            s.client.send_notification::<NOut>(&p);
            Ok(())
        })
        .build()
}

fn build_dap(init: Init, client: LspClient) -> LsDriver<DapMessage, Init> {
    let mut b = handlers!(DapBuilder::new(init, client))
        .with_request_::<RDefer>(|s, id, p| {
            let c = s.client.clone();
            rt::spawn("worker", move || c.untyped().respond_result(id, Ok(json!(p.tag))));
            Ok(Some(()))
        })
        .with_raw_request::<dapts::request::Disconnect>(|s, id, v| {
            let c = s.client.clone();
            rt::spawn("worker", move || c.untyped().respond_result(id, Ok(v["tag"].clone())));
            Ok(Some(()))
        })
        .with_request_::<RTwice>(|s, id, p| {
            for _ in 0..2 {
                let (c, id, p) = (s.client.clone(), id.clone(), p.clone());
                rt::spawn("worker", move || c.untyped().respond_result(id, Ok(json!(p.tag))));
            }
            Ok(Some(()))
        })
        .with_request::<REvents>(|s, p| {
            for i in 0..2 {
                let (c, p) = (s.client.clone(), p.clone());
                rt::spawn("sender", move || {
                    for j in 0..2 {
                        c.send_event(Ev(format!("{}{i}{j}", p.tag)));
                    }
                });
            }
            just_ok(json!(p.tag))
        })
        .with_request::<RAsks>(|s, p| {
            for i in 0..2 {
                let (c, p) = (s.client.clone(), p.clone());
                rt::spawn("asker", move || {
                    for j in 0..=i {
                        c.send_dap_event::<EvOut>(json!(format!("{}{i}{j}", p.tag)));
                    }
                });
            }
            just_ok(json!(p.tag))
        });
    b.notif_handlers.insert(
        "note",
        Box::new(|s: &mut Srv, v| {
            s.world.log(format!("note {}", v["tag"].as_str().unwrap_or("?")));
            Ok(())
        }),
    );
    b.build()
}
pub enum EvOut {}
impl dapts::IEvent for EvOut {
    const EVENT: &'static str = "out";
    type Body = Value;
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Proto {
    Lsp,
    Dap,
}

/// Serves one session over the replaceable standard input and output.
pub fn serve(proto: Proto, world: World, args: MirrorArgs) -> anyhow::Result<()> {
    let is_replay = !args.replay.is_empty();
    let handle = tokio::runtime::Handle::mc();
    match proto {
        Proto::Lsp => with_stdio_transport::<LspMessage>(args, |conn| {
            let root = LspClientRoot::new(handle, conn.sender);
            let client = root.weak();
            let mut d = build_lsp(Init { world, client: client.clone() }, client);
            d.start(conn.receiver, is_replay)
        }),
        Proto::Dap => with_stdio_transport::<DapMessage>(args, |conn| {
            let root = LspClientRoot::new(handle, conn.sender);
            let client = root.weak();
            let mut d = build_dap(Init { world, client: client.clone() }, client);
            d.start(conn.receiver, is_replay)
        }),
    }
}

/// A request of the client: id, method, tag.
pub fn req(proto: Proto, id: &Value, method: &str, tag: &str) -> Vec<u8> {
    let p = json!({ "tag": tag });
    frame(&match proto {
        Proto::Lsp => json!({"jsonrpc": "2.0", "id": id, "method": method, "params": p}),
        Proto::Dap => json!({"type": "request", "seq": id, "command": method, "arguments": p}),
    })
}
pub fn note(proto: Proto, method: &str, tag: &str) -> Vec<u8> {
    let p = json!({ "tag": tag });
    frame(&match proto {
        Proto::Lsp => json!({"jsonrpc": "2.0", "method": method, "params": p}),
        Proto::Dap => json!({"type": "event", "seq": 0, "event": method, "body": p}),
    })
}

/// A session: what the client sends in which pieces, and when it waits.
#[derive(Clone)]
pub struct Session {
    pub proto: Proto,
    pub steps: Vec<Step>,
    /// Requests in order with what their answer is: the tag, or an error.
    pub want: Vec<(Value, Result<String, ()>)>,
}

impl Session {
    pub fn new(proto: Proto) -> Session {
        let mut s = Session { proto, steps: vec![], want: vec![] };
        match proto {
            Proto::Lsp => {
                s.ask(json!(900), "initialize", "init", Ok("init"));
                let i = note(proto, "initialized", "");
                s.steps.push(Step::Send(i));
            }
            Proto::Dap => s.ask(json!(900), "initialize", "init", Ok("init")),
        }
        s
    }
    pub fn ask(&mut self, id: Value, method: &str, tag: &str, want: Result<&str, ()>) {
        self.steps.push(Step::Send(req(self.proto, &id, method, tag)));
        self.want.push((id, want.map(|s| s.to_string())));
    }
    pub fn step(&mut self, s: Step) {
        self.steps.push(s);
    }
    pub fn note(&mut self, method: &str, tag: &str) {
        self.steps.push(Step::Send(note(self.proto, method, tag)));
    }
    /// The client ends it before the input does.
    pub fn ends(&self) -> bool {
        self.steps.iter().any(|s| match s {
            Step::Send(b) => frames(b).is_ok_and(|f| f.iter().any(|m| m["method"] == "shutdown" || m["command"] == "disconnect")),
            _ => false,
        })
    }
    /// All bytes of the consecutive sends arrive at once.
    pub fn glued(mut self) -> Session {
        let mut out: Vec<Step> = vec![];
        for s in self.steps {
            match (out.last_mut(), s) {
                (Some(Step::Send(a)), Step::Send(b)) => a.extend(b),
                (_, s) => out.push(s),
            }
        }
        self.steps = out;
        self
    }
}

/// What an execution left behind.
pub struct Outcome {
    pub world: World,
    pub messages: Vec<Value>,
    pub log: Vec<String>,
}

/// Runs a session in the schedule of the chooser and checks what is common to
/// all of them: it terminates without panics, the output is a sequence of
/// whole messages, and every request is answered exactly once.
pub fn run_session(ch: &mut Chooser, s: &Session, args: MirrorArgs, piece: usize, fail_at: Option<usize>) -> Result<Outcome, Fail> {
    let world = World::default();
    let (w, s2) = (world.clone(), s.clone());
    let res = rt::run(ch, rt::Opts::delays(), move || {
        rt::set_local("stdin", Box::new(Box::new(Input::new(w.clone(), s2.steps.clone(), piece)) as Box<dyn std::io::BufRead + Send>));
        rt::set_local("stdout", Box::new(Box::new(Output { world: w.clone(), fail_at, ..Output::default() }) as Box<dyn std::io::Write + Send>));
        serve(s2.proto, w, args).map_err(|e| e.to_string())
    });
    judge(s, world, res.end, res.value, res.panics, fail_at.is_some())
}

pub fn judge(s: &Session, world: World, end: End, value: Option<Result<(), String>>, panics: Vec<String>, faulty: bool) -> Result<Outcome, Fail> {
    let (out, staged, log) = {
        let w = world.lock();
        (w.out.clone(), w.staged.clone(), w.log.clone())
    };
    let text = String::from_utf8_lossy(&out).to_string();
    match &end {
        End::Done { .. } => {}
        End::Deadlock(d) => {
            return Err(Fail::new("deadlock or missing message", format!("nobody can go on: {d}; output so far {text:?}")))
        }
        End::Livelock(d) => return Err(Fail::new("no progress", format!("{d}; output so far {text:?}"))),
        End::Panic(p) => return Err(Fail::new("panic", format!("the server panics: {p}"))),
    }
    if !panics.is_empty() {
        return Err(Fail::new("a thread panics", format!("{panics:?}")));
    }
    let faulty = faulty && world.lock().failed;
    match (&value, faulty) {
        (Some(Ok(())), false) => {}
        (Some(Err(_)), true) => {
            let messages = frames(&out).unwrap_or_default();
            return Ok(Outcome { world, messages, log });
        }
        _ => return Err(Fail::new("result of the session", format!("{value:?} (output fails: {faulty})"))),
    }
    if !staged.is_empty() {
        return Err(Fail::new("output not flushed", format!("{:?} stays in the buffer", String::from_utf8_lossy(&staged))));
    }
    let messages = match frames(&out) {
        Ok(m) => m,
        Err(e) => return Err(Fail::new("output is no sequence of messages", format!("{e}; output {text:?}"))),
    };
    let key = if s.proto == Proto::Lsp { "id" } else { "request_seq" };
    let answers: Vec<&Value> = messages
        .iter()
        .filter(|m| match s.proto {
            Proto::Lsp => m.get("method").is_none(),
            Proto::Dap => m["type"] == "response",
        })
        .collect();
    for (id, want) in &s.want {
        let mine: Vec<_> = answers.iter().filter(|a| &a[key] == id).collect();
        if mine.len() != 1 {
            return Err(Fail::new(
                format!("{} answers to a request", mine.len()),
                format!("request {id}: expected one answer, got {mine:?} in {messages:?}"),
            ));
        }
        let got = match s.proto {
            Proto::Lsp => mine[0].get("result").filter(|_| mine[0].get("error").is_none()),
            Proto::Dap => mine[0].get("body").filter(|_| mine[0]["success"] == true),
        };
        let ok = match want {
            Ok(t) => got == Some(&json!(t)),
            Err(()) => got.is_none(),
        };
        if !ok {
            return Err(Fail::new("answer of another request", format!("request {id}: expected {want:?}, got {}", mine[0])));
        }
    }
    if answers.len() != s.want.len() {
        return Err(Fail::new("answers nobody asked for", format!("{answers:?}")));
    }
    Ok(Outcome { world, messages, log })
}

pub fn observe(ch: &mut Chooser, o: &Outcome) {
    n(ch, o)
}

fn n(ch: &mut Chooser, o: &Outcome) {
    ch.observe((&o.log, o.messages.iter().map(|m| m.to_string()).collect::<Vec<_>>()));
}

/// Every client request is answered once.
pub fn answers(ctx: &mut Ctx, proto: Proto) {
    let p = if proto == Proto::Lsp { "" } else { "adapter " };
    let b = ctx.by(3, 4);
    let mut s = Session::new(proto);
    s.ask(json!(1), "async", "a", Ok("a"));
    s.ask(json!(2), "ok", "b", Ok("b"));
    s.ask(json!(3), "defer", "c", Ok("c"));
    s.ask(json!(4), "err", "d", Err(()));
    s.step(Step::Wait(5));
    let s = s.glued();
    ctx.explore(&format!("{p}workers and loop"), "schedules", "all schedules of reader, main loop, writer, a task and a worker thread that answer an asynchronous, a deferred, an immediate and a failing request of one session", b, |ch| {
        run_session(ch, &s, MirrorArgs::default(), 0, None).map(|o| n(ch, &o))
    });
    let mut s = Session::new(proto);
    s.step(Step::Wait(1));
    s.ask(json!(1), "twice", "a", Ok("a"));
    s.ask(json!(2), "lateErr", "b", Err(()));
    s.step(Step::Wait(3));
    ctx.explore(&format!("{p}racing answers"), "schedules", "all schedules of two workers that answer the same request and a failing task", b, |ch| {
        run_session(ch, &s, MirrorArgs::default(), 0, None).map(|o| n(ch, &o))
    });
    let mut s = Session::new(proto);
    s.ask(json!(1), "defer", "a", Ok("a"));
    s.step(Step::Wait(2));
    s.ask(json!(1), "async", "b", Ok("b"));
    s.step(Step::Wait(3));
    s.ask(json!(1), "ok", "c", Ok("c"));
    s.step(Step::Wait(4));
    // The id is in use one time after the other: counts all the answers.
    let want = s.want.split_off(1);
    ctx.explore(&format!("{p}reused id"), "schedules", "all schedules of three requests that use the same id one after the other", b, |ch| {
        let mut s1 = s.clone();
        s1.want.truncate(1);
        let mut o = run_reused(ch, &s1, &want)?;
        o.log.clear();
        n(ch, &o);
        Ok(())
    });
}

fn run_reused(ch: &mut Chooser, s: &Session, want: &[(Value, Result<String, ()>)]) -> Result<Outcome, Fail> {
    let world = World::default();
    let (w, s2) = (world.clone(), s.clone());
    let res = rt::run(ch, rt::Opts::delays(), move || {
        rt::set_local("stdin", Box::new(Box::new(Input::new(w.clone(), s2.steps.clone(), 0)) as Box<dyn std::io::BufRead + Send>));
        rt::set_local("stdout", Box::new(Box::new(Output { world: w.clone(), ..Output::default() }) as Box<dyn std::io::Write + Send>));
        serve(s2.proto, w, MirrorArgs::default()).map_err(|e| e.to_string())
    });
    match (&res.end, &res.value) {
        (End::Done { .. }, Some(Ok(()))) if res.panics.is_empty() => {}
        x => return Err(Fail::new("session with a reused id fails", format!("{x:?} {:?}", res.panics))),
    }
    let out = world.lock().out.clone();
    let messages = frames(&out).map_err(|e| Fail::new("output is no sequence of messages", e))?;
    let got: Vec<Value> = messages.iter().skip(1).map(|m| m.get("result").or(m.get("body")).cloned().unwrap_or(Value::Null)).collect();
    let exp: Vec<Value> = want.iter().map(|w| json!(w.1.clone().unwrap_or_default())).collect();
    if got != exp {
        return Err(Fail::new("answers to a reused id", format!("expected {exp:?}, got {messages:?}")));
    }
    Ok(Outcome { log: vec![], messages, world })
}

/// Replies reach their handlers when several threads ask.
pub fn replies(ctx: &mut Ctx) {
    let b = ctx.by(3, 4);
    for (name, rev) in [("concurrent requests to the client", false), ("reversed replies", true)] {
        let mut s = Session::new(Proto::Lsp);
        s.step(Step::Wait(1));
        // Ids of the client that the server will use, too.
        s.ask(json!(0), "asks", "t", Ok("t"));
        s.ask(json!(1), "async", "u", Ok("u"));
        s.step(Step::Reply(3, rev));
        s.step(Step::WaitLog(4));
        ctx.explore(name, "schedules", "all schedules of two threads that send one and two requests to the client, which replies in or against their order, while a client request with the same id is answered", b, |ch| {
            let o = run_session(ch, &s, MirrorArgs::default(), 0, None)?;
            let asks: Vec<&Value> = o.messages.iter().filter(|m| m.get("method").is_some()).collect();
            let mut ids: Vec<String> = asks.iter().map(|m| m["id"].to_string()).collect();
            ids.sort();
            ids.dedup();
            if ids.len() != 3 || asks.len() != 3 {
                return Err(Fail::new("ids of requests to the client", format!("expected three ids, got {asks:?}")));
            }
            let mut tags: Vec<&str> = asks.iter().filter_map(|m| m["params"]["tag"].as_str()).collect();
            let at = |t: &str| tags.iter().position(|x| *x == t);
            if at("t10") > at("t11") {
                return Err(Fail::new("requests of one thread out of order", format!("{tags:?}")));
            }
            tags.sort();
            if tags != ["t00", "t10", "t11"] {
                return Err(Fail::new("requests to the client", format!("{asks:?}")));
            }
            let mut log: Vec<String> = o.log.iter().filter(|l| l.starts_with("reply")).cloned().collect();
            log.sort();
            if log != ["reply t00 \"t00\"", "reply t10 \"t10\"", "reply t11 \"t11\""] {
                return Err(Fail::new("replies", format!("handlers got {log:?}")));
            }
            n(ch, &o);
            Ok(())
        });
    }
    // Replies one by one, while others still ask.
    let mut s = Session::new(Proto::Lsp);
    s.step(Step::Wait(1));
    s.ask(json!(5), "asks", "t", Ok("t"));
    s.step(Step::Reply(1, false));
    s.step(Step::Reply(2, false));
    s.step(Step::Reply(3, false));
    s.step(Step::WaitLog(3));
    ctx.explore("replies while asking", "schedules", "the same with replies as soon as possible", b, |ch| {
        let o = run_session(ch, &s, MirrorArgs::default(), 0, None)?;
        let mut log = o.log.clone();
        log.sort();
        if log != ["reply t00 \"t00\"", "reply t10 \"t10\"", "reply t11 \"t11\""] {
            return Err(Fail::new("replies", format!("handlers got {log:?}")));
        }
        n(ch, &o);
        Ok(())
    });
}

/// Replies whose handlers ask again.
pub fn chains(ctx: &mut Ctx) {
    let b = ctx.by(2, 4);
    let mut s = Session::new(Proto::Lsp);
    s.step(Step::Wait(1));
    s.ask(json!(5), "chain", "t", Ok("t"));
    s.ask(json!(6), "async", "u", Ok("u"));
    for n in 1..=5 {
        s.step(Step::Reply(n, false));
    }
    s.step(Step::WaitLog(6));
    ctx.explore("replies that ask again", "schedules", "all schedules of a worker and the main loop that ask the client, with handlers of the replies that ask again, two levels deep, while a request is answered later", b, |ch| {
        let o = run_session(ch, &s, MirrorArgs::default(), 0, None)?;
        let mut log: Vec<String> = o.log.iter().filter(|l| l.starts_with("reply")).cloned().collect();
        log.sort();
        let want = ["++t", "+t", "+tw", "t", "tw"].map(|t| format!("reply {t} \"{t}\""));
        if log != want {
            return Err(Fail::new("replies", format!("handlers got {log:?}")));
        }
        n(ch, &o);
        Ok(())
    });
}

/// Messages and events, in order and once.
pub fn ordering(ctx: &mut Ctx, proto: Proto) {
    let p = if proto == Proto::Lsp { "" } else { "adapter " };
    let b = ctx.by(3, 4);
    let mut s = Session::new(proto);
    s.ask(json!(1), "events", "e", Ok("e"));
    s.note("note", "a");
    s.note("nothing", "x");
    s.ask(json!(2), "ok", "b", Ok("b"));
    s.note("note", "c");
    s.step(Step::WaitLog(7));
    let s = s.glued();
    ctx.explore(&format!("{p}events and messages"), "schedules", "all schedules of two threads that send two events each to the main loop, which takes four messages meanwhile", b, |ch| {
        let o = run_session(ch, &s, MirrorArgs::default(), 0, None)?;
        let part = |pre: &str| o.log.iter().filter(|l| l.starts_with(pre)).cloned().collect::<Vec<_>>();
        let msgs: Vec<String> = o.log.iter().filter(|l| !l.starts_with("event")).cloned().collect();
        if msgs != ["note a", "ok b", "note c"] {
            return Err(Fail::new("messages out of order", format!("{msgs:?}")));
        }
        if part("event e0") != ["event e00", "event e01"] || part("event e1") != ["event e10", "event e11"] {
            return Err(Fail::new("events out of order", format!("{:?}", o.log)));
        }
        n(ch, &o);
        Ok(())
    });
}

/// The debug adapter's events.
pub fn dap_events(ctx: &mut Ctx) {
    let b = ctx.by(3, 4);
    let mut s = Session::new(Proto::Dap);
    s.step(Step::Wait(1));
    s.ask(json!(4294967297i64), "asks", "t", Ok("t"));
    s.ask(json!(1), "async", "u", Ok("u"));
    s.step(Step::Wait(6));
    ctx.explore("adapter concurrent events", "schedules", "all schedules of two threads that send one and two events to the client while requests are answered", b, |ch| {
        let o = run_session(ch, &s, MirrorArgs::default(), 0, None)?;
        let evs: Vec<&Value> = o.messages.iter().filter(|m| m["type"] == "event").collect();
        let mut seqs: Vec<i64> = evs.iter().filter_map(|e| e["seq"].as_i64()).collect();
        seqs.sort();
        seqs.dedup();
        let tags: Vec<&str> = evs.iter().filter_map(|e| e["body"].as_str()).collect();
        let at = |t: &str| tags.iter().position(|x| *x == t);
        if seqs.len() != 3 || at("t00").is_none() || at("t10").is_none() || at("t10") > at("t11") {
            return Err(Fail::new("events of the adapter", format!("{evs:?}")));
        }
        n(ch, &o);
        Ok(())
    });
}

