//! The server under test: the real driver with a fixed set of handlers, fed
//! one message at a time.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

use crossbeam_channel::{unbounded, Receiver, Sender};
use serde_json::{json, Value};
use sync_ls::lsp::{Notification, Response};
use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::*;

/// What happened inside the server, in order.
pub type Log = Arc<Mutex<Vec<String>>>;

pub fn empty_file() -> String {
    static P: OnceLock<String> = OnceLock::new();
    P.get_or_init(|| {
        let p = std::env::temp_dir().join(format!("mc-empty-{}", std::process::id()));
        std::fs::write(&p, b"").unwrap();
        p.to_string_lossy().into_owned()
    })
    .clone()
}

pub fn cleanup() {
    let _ = std::fs::remove_file(std::env::temp_dir().join(format!("mc-empty-{}", std::process::id())));
}

/// Connections can only be made by the transport; take one and swap its
/// channels.
pub fn lsp_base() -> (TConnectionTx<LspMessage>, TConnectionRx<LspMessage>) {
    static B: OnceLock<Mutex<(TConnectionTx<LspMessage>, TConnectionRx<LspMessage>)>> = OnceLock::new();
    B.get_or_init(|| {
        let mut got = None;
        let args = MirrorArgs { mirror: String::new(), replay: empty_file() };
        with_stdio_transport::<LspMessage>(args, |c| {
            let (mut tx, mut rx) = (c.sender, c.receiver);
            tx.lsp = unbounded().0;
            rx.lsp = unbounded().1;
            got = Some((tx, rx));
            Ok(())
        })
        .unwrap();
        Mutex::new(got.unwrap())
    })
    .lock()
    .unwrap()
    .clone()
}

pub fn dap_base() -> (TConnectionTx<DapMessage>, TConnectionRx<DapMessage>) {
    static B: OnceLock<Mutex<(TConnectionTx<DapMessage>, TConnectionRx<DapMessage>)>> = OnceLock::new();
    B.get_or_init(|| {
        let mut got = None;
        let args = MirrorArgs { mirror: String::new(), replay: empty_file() };
        with_stdio_transport::<DapMessage>(args, |c| {
            let (mut tx, mut rx) = (c.sender, c.receiver);
            tx.lsp = unbounded().0;
            rx.lsp = unbounded().1;
            got = Some((tx, rx));
            Ok(())
        })
        .unwrap();
        Mutex::new(got.unwrap())
    })
    .lock()
    .unwrap()
    .clone()
}

pub enum Deferred {
    Async(tokio::sync::oneshot::Sender<LspResult<Value>>),
    Raw(RequestId),
}

/// The service of the server under test.
pub struct Srv {
    pub log: Log,
    pub inject: Inject,
    pub client: TypedLspClient<Srv>,
    /// Requests whose answer the environment gives later, by tag.
    pub deferred: DeferredMap,
}

/// Outlives the service, which is gone after a shutdown.
pub type DeferredMap = Arc<Mutex<BTreeMap<String, Deferred>>>;

/// Where handlers put messages that arrive meanwhile.
pub type Inject = Arc<Mutex<Option<Sender<Message>>>>;

pub struct Init {
    pub log: Log,
    pub inject: Inject,
    pub deferred: DeferredMap,
    pub client: LspClient,
    /// Whether `initialize` is answered by the environment later.
    pub defer_init: bool,
}

#[derive(serde::Deserialize)]
pub struct InitParams {
    pub ok: bool,
}

pub fn err(code: i32, msg: &str) -> ResponseError {
    ResponseError { code, message: msg.into(), data: None }
}

impl Initializer for Init {
    type I = InitParams;
    type S = Srv;
    fn initialize(self, req: InitParams) -> (Srv, AnySchedulableResponse) {
        self.log.lock().unwrap().push("initialize".into());
        let s = Srv {
            log: self.log.clone(),
            inject: self.inject.clone(),
            client: self.client.to_typed(),
            deferred: self.deferred.clone(),
        };
        if self.defer_init {
            let (tx, rx) = tokio::sync::oneshot::channel();
            s.deferred.lock().unwrap().insert("init".into(), Deferred::Async(tx));
            return (s, just_future(async move { rx.await.unwrap_or_else(|_| Err(err(-32099, "dropped"))) }));
        }
        if req.ok {
            (s, just_ok(json!({"capabilities": {}})))
        } else {
            (s, Err(err(-32803, "init failed")))
        }
    }
}

impl Srv {
    pub fn note(&self, s: impl Into<String>) {
        self.log.lock().unwrap().push(s.into());
    }
    pub fn defer(&mut self, tag: String) -> SchedulableResponse<Value> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.deferred.lock().unwrap().insert(tag, Deferred::Async(tx));
        just_future(async move { rx.await.unwrap_or_else(|_| Err(err(-32099, "dropped"))) })
    }
}

/// The parameters of every request and notification of the alphabet.
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct P {
    pub tag: String,
}

macro_rules! reqs {
    ($($name:ident = $m:literal;)*) => {$(
        pub enum $name {}
        impl lsp_types::request::Request for $name {
            type Params = P;
            type Result = Value;
            const METHOD: &'static str = $m;
        }
    )*};
}
reqs! {
    ROk = "t/ok"; RErr = "t/err"; RDoneErr = "t/doneErr"; RAsync = "t/async";
    RNone = "t/none"; RSelf = "t/self"; RDefer = "t/defer"; RRawErr = "t/rawErr"; RBoth = "t/both";
    RTyped = "t/typedRaw"; RServer = "server/ask"; RAsk = "t/ask";
}
/// The requests whose outcome the parameters tell.
pub enum RVal {}
impl lsp_types::request::Request for RVal {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "t/val";
}
pub enum RRawVal {}
impl lsp_types::request::Request for RRawVal {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "t/rawVal";
}
pub enum NVal {}
impl lsp_types::notification::Notification for NVal {
    type Params = Value;
    const METHOD: &'static str = "t/noteVal";
}
/// The outcome that parameters tell.
pub fn outcome(v: &Value) -> LspResult<Value> {
    match v["code"].as_i64() {
        None => Ok(v["ok"].clone()),
        Some(c) => Err(err(c as i32, v["message"].as_str().unwrap())),
    }
}
fn val(s: &mut Srv, v: Value) -> SchedulableResponse<Value> {
    match v["how"].as_str() {
        Some("now") => outcome(&v).and_then(just_ok),
        Some("done") => just_result(outcome(&v)),
        _ => s.defer(tag(&v)),
    }
}
fn raw_val(s: &mut Srv, id: RequestId, v: Value) -> ScheduledResult {
    match v["how"].as_str() {
        Some("now") => {
            let v = outcome(&v)?;
            s.client.respond_lsp(Response::new_ok(id, v));
        }
        Some("done") => s.client.respond_result(id, outcome(&v)),
        _ => {
            s.deferred.lock().unwrap().insert(tag(&v), Deferred::Raw(id));
        }
    }
    Ok(Some(()))
}
pub enum NNote {}
impl lsp_types::notification::Notification for NNote {
    type Params = P;
    const METHOD: &'static str = "t/note";
}
pub enum NRaw {}
impl lsp_types::notification::Notification for NRaw {
    type Params = Value;
    const METHOD: &'static str = "t/rawNote";
}

fn tag(v: &Value) -> String {
    v["tag"].as_str().unwrap_or("?").to_owned()
}
fn cmd_tag(v: &[Value]) -> String {
    v.first().map(tag).unwrap_or("?".into())
}

/// An event type the server handles, and one it does not.
pub struct EvA(pub String);
pub struct EvB(pub String);
pub struct EvUnknown;

pub fn build(init: Init, client: LspClient) -> LsDriver<LspMessage, Init> {
    LspBuilder::new(init, client)
        .with_event::<EvA>(&EvA(String::new()), |mut s, e| {
            match s.ready() {
                Some(s) => s.note(format!("event A {}", e.0)),
                None => {
                    if let ServiceState::Uninitialized(Some(i)) = s {
                        i.log.lock().unwrap().push(format!("early event A {}", e.0));
                    }
                }
            }
            Ok(())
        })
        .with_event::<EvB>(&EvB(String::new()), |mut s, e| {
            if let Some(s) = s.ready() {
                s.note(format!("event B {}", e.0));
                if let Some(t) = e.0.strip_prefix("ask:") {
                    ask(&s.client, t.to_owned());
                }
                if let Some(t) = e.0.strip_prefix("send:") {
                    s.client.send_event(EvA(t.to_owned()));
                }
                if let Some(t) = e.0.strip_prefix("inject:") {
                    let m = notif("t/note", json!({"tag": t}));
                    if let Some(tx) = &*s.inject.lock().unwrap() {
                        tx.send(m.into_msg()).unwrap();
                    }
                }
            }
            Ok(())
        })
        .with_request::<ROk>(|s, p| {
            s.note(format!("ok {}", p.tag));
            just_ok(json!(p.tag))
        })
        .with_request::<RErr>(|s, p| {
            s.note(format!("err {}", p.tag));
            Err(err(-32803, "early"))
        })
        .with_request::<RDoneErr>(|s, p| {
            s.note(format!("doneErr {}", p.tag));
            just_result(Err(err(-32801, "done")))
        })
        .with_request::<RAsync>(|s, p| {
            s.note(format!("async {}", p.tag));
            s.defer(p.tag)
        })
        .with_raw_request::<RNone>(|s, _id, v| {
            s.note(format!("none {}", tag(&v)));
            Ok(None)
        })
        .with_raw_request::<RSelf>(|s, id, v| {
            s.note(format!("self {}", tag(&v)));
            s.client.respond_lsp(Response::new_ok(id, json!(tag(&v))));
            Ok(Some(()))
        })
        .with_raw_request::<RDefer>(|s, id, v| {
            s.note(format!("defer {}", tag(&v)));
            s.deferred.lock().unwrap().insert(tag(&v), Deferred::Raw(id));
            Ok(Some(()))
        })
        .with_raw_request::<RRawErr>(|s, _id, v| {
            s.note(format!("rawErr {}", tag(&v)));
            Err(err(-32802, "raw"))
        })
        .with_raw_request::<RBoth>(|s, id, v| {
            s.note(format!("both {}", tag(&v)));
            s.client.respond_lsp(Response::new_ok(id, json!(tag(&v))));
            Err(err(-32802, "late"))
        })
        .with_request_::<RTyped>(|s, id, p| {
            s.note(format!("typedRaw {}", p.tag));
            s.client.clone().schedule(id, just_ok(json!(p.tag)))
        })
        .with_request::<RAsk>(|s, p| {
            s.note(format!("ask {}", p.tag));
            ask(&s.client, p.tag.clone());
            if p.tag.starts_with("twice") {
                ask(&s.client, format!("{}+", p.tag));
            }
            just_ok(json!(p.tag))
        })
        .with_raw_request::<lsp_types::request::Shutdown>(|s, id, v| {
            s.note("shutdown");
            match v["how"].as_str() {
                Some("fail") => Err(err(-32803, "no")),
                Some("later") => {
                    s.deferred.lock().unwrap().insert(tag(&v), Deferred::Raw(id));
                    Ok(Some(()))
                }
                Some("self") => {
                    s.client.respond_lsp(Response::new_ok(id, Value::Null));
                    Ok(Some(()))
                }
                _ => Ok(None),
            }
        })
        .with_command("c/ok", |s, a| {
            s.note(format!("c/ok {}", cmd_tag(&a)));
            just_ok(json!(cmd_tag(&a)))
        })
        .with_command("c/async", |s, a| {
            s.note(format!("c/async {}", cmd_tag(&a)));
            s.defer(cmd_tag(&a))
        })
        .with_command_("c/none", |s, _id, a| {
            s.note(format!("c/none {}", cmd_tag(&a)));
            Ok(None)
        })
        .with_command_("c/err", |s, _id, a| {
            s.note(format!("c/err {}", cmd_tag(&a)));
            Err(err(-32803, "cmd"))
        })
        .with_request::<RVal>(val)
        .with_raw_request::<RRawVal>(raw_val)
        .with_command("c/val", |s, mut a| val(s, a.pop().unwrap()))
        .with_command_("c/rawVal", |s, id, mut a| raw_val(s, id, a.pop().unwrap()))
        .with_notification_::<NVal>(|s, v| {
            s.note(format!("noteVal {}", tag(&v)));
            outcome(&v).map(|_| ())
        })
        .with_resource("/res/known", |s, a| {
            s.note(format!("resource {}", a.len()));
            just_ok(json!("resource"))
        })
        .with_notification::<NNote>(|s, p| {
            s.note(format!("note {}", p.tag));
            Ok(())
        })
        .with_notification_::<NRaw>(|s, v| {
            s.note(format!("rawNote {}", tag(&v)));
            Err(err(-32803, "failing notification"))
        })
        .build()
}

/// Asks the client something; the reply is logged under the tag.
pub fn ask(client: &TypedLspClient<Srv>, tag: String) {
    let t = tag.clone();
    client.send_lsp_request::<RServer>(P { tag }, move |s: &mut Srv, r: Response| {
        let what = match (&r.result, &r.error) {
            (Some(v), None) => format!("ok {v}"),
            (None, Some(e)) => format!("err {}", e.code),
            _ => "neither".into(),
        };
        s.note(format!("reply {t} {what}"));
        if t.starts_with("chain") && !t.ends_with("'") {
            let c = s.client.clone();
            ask(&c, format!("{t}'"));
        }
    });
}

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}

pub fn with_rt<T>(f: impl FnOnce(&tokio::runtime::Runtime) -> T) -> T {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let rt = r.get_or_insert_with(|| tokio::runtime::Builder::new_current_thread().build().unwrap());
        f(rt)
    })
}

/// Lets every task run until it waits.
pub fn settle() {
    with_rt(|rt| {
        rt.block_on(async {
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        })
    });
}

/// A notification nobody handles, which shows that the loop went on.
const LAST: &str = "$/last";

pub struct Sys {
    pub driver: LsDriver<LspMessage, Init>,
    pub client: LspClient,
    _root: LspClientRoot,
    pub out: Receiver<Message>,
    pub log: Log,
    pub deferred: DeferredMap,
    inject: Inject,
    ev_tx: Sender<Event>,
    ev_rx: Receiver<Event>,
    rx: TConnectionRx<LspMessage>,
    seen: usize,
}

impl Sys {
    pub fn new(defer_init: bool) -> Sys {
        let (mut tx, rx) = lsp_base();
        let (out_tx, out) = unbounded();
        let (ev_tx, ev_rx) = unbounded();
        tx.lsp = out_tx;
        tx.event = ev_tx.clone();
        let handle = with_rt(|rt| rt.handle().clone());
        let root = LspClientRoot::new(handle, tx);
        let client = root.weak();
        let log: Log = Default::default();
        let deferred = DeferredMap::default();
        let inject = Inject::default();
        let init =
            Init { log: log.clone(), inject: inject.clone(), deferred: deferred.clone(), client: client.clone(), defer_init };
        let driver = build(init, client.clone());
        Sys { driver, client, _root: root, out, log, deferred, inject, ev_tx, ev_rx, rx, seen: 0 }
    }

    /// Runs the main loop on some messages; returns how many it left over.
    pub fn feed(&mut self, msgs: Vec<LspMessage>) -> anyhow::Result<usize> {
        let (tx, rx) = unbounded();
        let exits = msgs.iter().any(|m| matches!(m, LspMessage::Notification(n) if n.method == "exit"));
        for m in msgs {
            tx.send(m.into_msg()).unwrap();
        }
        if !exits {
            tx.send(notif(LAST, Value::Null).into_msg()).unwrap();
        }
        drop(tx);
        let mut inbox = self.rx.clone();
        inbox.lsp = rx.clone();
        inbox.event = self.ev_rx.clone();
        self.driver.start_(inbox)?;
        anyhow::ensure!(exits || rx.is_empty(), "the loop ended by itself");
        Ok(rx.len())
    }

    /// Runs the main loop on messages and events that are all there already.
    pub fn feed_both(&mut self, msgs: Vec<LspMessage>, evs: Vec<Event>) -> anyhow::Result<()> {
        let (tx, rx) = unbounded();
        for m in msgs {
            tx.send(m.into_msg()).unwrap();
        }
        tx.send(notif(LAST, Value::Null).into_msg()).unwrap();
        let (etx, erx) = unbounded::<Event>();
        for e in evs {
            etx.send(e).unwrap();
        }
        etx.send(Box::new(EvUnknown)).unwrap();
        drop(etx);
        let mut inbox = self.rx.clone();
        inbox.lsp = rx.clone();
        inbox.event = erx.clone();
        *self.inject.lock().unwrap() = Some(tx);
        let res = self.driver.start_(inbox);
        *self.inject.lock().unwrap() = None;
        res?;
        anyhow::ensure!(rx.is_empty() && erx.is_empty(), "the loop ended by itself");
        Ok(())
    }

    /// Lets the main loop take the events that were sent to it.
    pub fn drain_events(&mut self) -> anyhow::Result<()> {
        let evs: Vec<Event> = self.ev_rx.try_iter().collect();
        self.feed_both(vec![], evs)
    }

    pub fn send_event(&self, e: Box<dyn Any + Send>) {
        self.ev_tx.send(e).unwrap();
    }

    /// What the server wrote since the last call.
    pub fn outputs(&mut self) -> Vec<Value> {
        settle();
        self.out.try_iter().map(|m| wire(m)).collect()
    }

    /// What the handlers logged since the last call.
    pub fn logs(&mut self) -> Vec<String> {
        let l = self.log.lock().unwrap();
        let r = l[self.seen..].to_vec();
        self.seen = l.len();
        r
    }

    /// Completes a deferred request; false if the server does not have it.
    pub fn complete(&mut self, tag: &str, res: LspResult<Value>) -> bool {
        let d = self.deferred.lock().unwrap().remove(tag);
        match d {
            None => return false,
            Some(Deferred::Async(tx)) => {
                let _ = tx.send(res);
            }
            Some(Deferred::Raw(id)) => match res {
                Ok(v) => self.client.respond_lsp(Response::new_ok(id, v)),
                Err(e) => self.client.respond_lsp(Response::new_err(id, e.code, e.message)),
            },
        }
        settle();
        true
    }
}

pub trait IntoMsg {
    fn into_msg(self) -> Message;
}
impl IntoMsg for LspMessage {
    fn into_msg(self) -> Message {
        match self {
            sync_ls::lsp::Message::Request(r) => r.into(),
            sync_ls::lsp::Message::Response(r) => r.into(),
            sync_ls::lsp::Message::Notification(r) => r.into(),
        }
    }
}

/// The JSON text of a message, as it goes over the wire.
pub fn wire(m: Message) -> Value {
    let mut buf = vec![];
    m.write(&mut buf).unwrap();
    let at = buf.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
    serde_json::from_slice(&buf[at..]).unwrap()
}

pub fn parse(v: Value) -> LspMessage {
    serde_json::from_value(v).unwrap()
}

pub fn request(id: &Value, method: &str, params: Value) -> LspMessage {
    parse(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))
}

pub fn notif(method: &str, params: Value) -> LspMessage {
    let n = Notification { method: method.into(), params };
    n.into()
}
