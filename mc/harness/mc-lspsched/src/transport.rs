//! The transport's threads (L08), mirroring and replay (L09).

use std::io;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

use mccore::rt::{self, End};
use mccore::{Chooser, Ctx, Fail};
use serde_json::{json, Value};
use sync_ls::transport::{io_transport, MirrorArgs};
use sync_ls::{Message, MessageKind};

use crate::server::{self, note, req, run_session, serve, Proto, Session};
use crate::world::*;

/// A session of the bare transport.
#[derive(Clone)]
struct Pipe {
    proto: Proto,
    /// What arrives; `exit` ends an input of the language server.
    inputs: Vec<Vec<u8>>,
    /// Where the input fails instead of ending: after so many of its bytes.
    fail_in: Option<usize>,
    piece: usize,
    outputs: usize,
    fail_at: Option<usize>,
    interrupted_at: Option<usize>,
    short: usize,
    /// How the input and the output fail.
    kind: io::ErrorKind,
    /// The receiving and the sending part run on threads of their own.
    split: bool,
}

fn in_msg(proto: Proto, k: usize) -> Vec<u8> {
    match k % 2 {
        0 => note(proto, "in", &format!("€{k}")),
        _ => req(proto, &json!(k), "in", &format!("{k}\r\n")),
    }
}

fn out_msg(proto: Proto, k: usize) -> Message {
    let v: Value = match (proto, k % 2) {
        (Proto::Lsp, 0) => json!({"method": "out", "params": {"tag": format!("ä{k}")}}),
        (Proto::Lsp, _) => json!({"id": k, "result": k}),
        (Proto::Dap, 0) => json!({"type": "event", "seq": k, "event": "out", "body": {"tag": format!("ä{k}")}}),
        (Proto::Dap, _) => json!({"type": "response", "seq": k, "request_seq": k, "success": true, "command": "x"}),
    };
    match proto {
        Proto::Lsp => Message::Lsp(serde_json::from_value(v).expect("a message")),
        Proto::Dap => Message::Dap(serde_json::from_value(v).expect("a message")),
    }
}

fn text(m: &Message) -> Value {
    match m {
        Message::Lsp(m) => serde_json::to_value(m).expect("json"),
        Message::Dap(m) => serde_json::to_value(m).expect("json"),
    }
}

/// A message's identity, whatever optional members its text has.
fn key(v: &Value) -> String {
    let f = |k: &str| v.get(k).map(|x| x.to_string()).unwrap_or_default();
    format!("{}{}{}{}{}{}{}", f("id"), f("method"), f("command"), f("event"), f("params"), f("arguments"), f("body"))
        + &f("result")
}

struct Seen {
    got: Vec<Value>,
    /// How many sends succeeded.
    sent: usize,
    joined: Result<(), String>,
}

fn run_pipe(ch: &mut Chooser, p: &Pipe) -> Result<(), Fail> {
    let world = World::default();
    let (w, p2) = (world.clone(), p.clone());
    let res = rt::run(ch, rt::Opts::delays(), move || {
        let p = p2;
        let mut steps: Vec<Step> = p.inputs.iter().cloned().map(Step::Send).collect();
        if let Some(n) = p.fail_in {
            let all: Vec<u8> = p.inputs.concat();
            steps = vec![Step::Send(all[..n].to_vec()), Step::Fail(p.kind)];
        }
        let inp = Input::new(w.clone(), steps, p.piece);
        let out = Output { world: w.clone(), fail_at: p.fail_at, kind: Some(p.kind), short: p.short, interrupted_at: p.interrupted_at, ..Output::default() };
        let kind = if p.proto == Proto::Lsp { MessageKind::Lsp } else { MessageKind::Dap };
        let (tx, rx, threads) = io_transport(kind, move || inp, move || out);
        let proto = p.proto;
        let n = p.outputs;
        let send = move || {
            let tx = tx;
            let mut sent = 0;
            for k in 0..n {
                if tx.send(out_msg(proto, k)).is_err() {
                    break;
                }
                sent += 1;
            }
            sent
        };
        let recv = move || rx.into_iter().map(|m| text(&m)).collect::<Vec<_>>();
        let (got, sent);
        if p.split {
            let s = rt::spawn("sender", send);
            got = recv();
            sent = s.join().unwrap_or(usize::MAX);
        } else {
            sent = send();
            got = recv();
        }
        let joined = threads.join().map_err(|e| e.to_string());
        Seen { got, sent, joined }
    });
    match &res.end {
        End::Done { leaked } if leaked.is_empty() => {}
        End::Done { leaked } => return Err(Fail::new("threads left", format!("after the join, there are {leaked:?}"))),
        End::Deadlock(d) => return Err(Fail::new("deadlock", format!("nobody can go on: {d}"))),
        End::Livelock(d) => return Err(Fail::new("no progress", d.clone())),
        End::Panic(m) => return Err(Fail::new("panic", m.clone())),
    }
    if !res.panics.is_empty() {
        return Err(Fail::new("a thread panics", format!("{:?}", res.panics)));
    }
    let seen = res.value.expect("a value");
    let w = world.lock();
    // What arrived, in order, up to the end, the failure or `exit`.
    let mut want = vec![];
    let mut at = 0;
    let mut exit = false;
    for i in &p.inputs {
        at += i.len();
        if exit || p.fail_in.is_some_and(|f| at > f) {
            break;
        }
        let v = frames(i).expect("an input")[0].clone();
        exit = p.proto == Proto::Lsp && v["method"] == "exit" && v.get("id").is_none();
        want.push(v);
    }
    let (g, e): (Vec<String>, Vec<String>) = (seen.got.iter().map(key).collect(), want.iter().map(key).collect());
    if g != e {
        return Err(Fail::new("messages that arrived", format!("expected {want:?}, got {:?}", seen.got)));
    }
    if exit {
        let upto: usize = p.inputs.iter().take(want.len()).map(|i| i.len()).sum();
        if p.piece == 1 && w.consumed.len() != upto {
            return Err(Fail::new("reads after exit", format!("{} of {upto} bytes", w.consumed.len())));
        }
    }
    let in_fails = p.fail_in.is_some() && !exit;
    let out_fails = w.failed || p.interrupted_at.is_some_and(|_| w.flush_interrupted);
    if seen.joined.is_ok() == (in_fails || out_fails) {
        return Err(Fail::new(
            "result of the join",
            format!("{:?} (input fails: {in_fails}, output fails: {out_fails})", seen.joined),
        ));
    }
    let want: Vec<String> = (0..p.outputs).map(|k| key(&text(&out_msg(p.proto, k)))).collect();
    if out_fails {
        // The complete frames are a prefix of what was sent.
        let mut out = w.out.clone();
        out.extend(&w.staged);
        let mut full = vec![];
        for k in 0..p.outputs {
            out_msg(p.proto, k).write(&mut full).expect("in memory");
        }
        if !full.starts_with(&out) {
            return Err(Fail::new("output before the failure", format!("{:?}", String::from_utf8_lossy(&out))));
        }
    } else {
        if seen.sent != p.outputs {
            return Err(Fail::new("sending fails", format!("{} of {} messages were taken", seen.sent, p.outputs)));
        }
        if !w.staged.is_empty() {
            return Err(Fail::new("output not flushed", format!("{:?}", String::from_utf8_lossy(&w.staged))));
        }
        let got: Vec<String> = match frames(&w.out) {
            Ok(f) => f.iter().map(key).collect(),
            Err(e) => return Err(Fail::new("output is no sequence of messages", e)),
        };
        if got != want {
            return Err(Fail::new("messages on the output", format!("expected {want:?}, got {got:?}")));
        }
    }
    if !w.out_dropped {
        return Err(Fail::new("output not closed", "the writer ended without closing the output"));
    }
    ch.observe((seen.got.len(), seen.sent, seen.joined.is_ok(), w.out.len()));
    Ok(())
}

fn pipe(proto: Proto, inputs: usize, outputs: usize) -> Pipe {
    Pipe {
        proto,
        inputs: (0..inputs).map(|k| in_msg(proto, k)).collect(),
        fail_in: None,
        piece: 0,
        outputs,
        fail_at: None,
        interrupted_at: None,
        short: 0,
        kind: io::ErrorKind::Other,
        split: true,
    }
}

fn protocols(ch: &mut Chooser) -> Proto {
    *ch.pick("protocol", &[Proto::Lsp, Proto::Dap])
}

/// Errors that end a stream.
const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::StorageFull,
    io::ErrorKind::Other,
];

pub fn transport(ctx: &mut Ctx) {
    let b = ctx.by(3, 4);
    let n = 4;
    ctx.explore("both directions", "schedules", "all schedules of reader, writer, receiving and sending thread with up to three messages each way, both protocols, reads of whole chunks, 1, 3 or 64 bytes, and the server sending before it receives or meanwhile", b, |ch| {
        let proto = protocols(ch);
        let mut p = pipe(proto, ch.choose("inputs", n), ch.choose("outputs", n));
        p.piece = *ch.pick("piece", &[0, 1, 3, 64]);
        p.split = ch.choose("split", 2) == 0;
        run_pipe(ch, &p)
    });
    ctx.explore("exit", "schedules", "the same with an exit notification (or something that looks like one) at every place of the input", b, |ch| {
        let proto = protocols(ch);
        let outputs = ch.choose("outputs", 3);
        let mut p = pipe(proto, 1 + ch.choose("inputs", 2), outputs);
        let at = ch.choose("exit at", p.inputs.len() + 1);
        // What only looks like it ends nothing.
        let like = if proto == Proto::Lsp && outputs == 0 { ch.choose("look-alike", 5) } else { 0 };
        p.inputs.insert(at, match proto {
            Proto::Lsp if like == 4 => frame(&json!({"jsonrpc": "2.0", "id": 77, "method": "exit"})),
            Proto::Lsp => frame(&json!({"jsonrpc": "2.0", "method": (["exit", "exited", "$/exit", "Exit"][like])})),
            Proto::Dap => frame(&json!({"type": "event", "seq": 1, "event": "exit"})),
        });
        p.piece = *ch.pick("piece", &[0, 1]);
        run_pipe(ch, &p)
    });
    let b = ctx.by(2, 3);
    ctx.explore("input fails", "faults", "all schedules with an input that fails after every one of its bytes", b, |ch| {
        let proto = protocols(ch);
        let mut p = pipe(proto, 2, ch.choose("outputs", 3));
        let all: usize = p.inputs.iter().map(|i| i.len()).sum();
        p.fail_in = Some(ch.choose("fail after", all + 1));
        p.piece = *ch.pick("piece", &[0, 7]);
        run_pipe(ch, &p)
    });
    ctx.explore("output fails", "faults", "all schedules with an output that fails at every one of its writes and flushes, takes few bytes at a time, or is interrupted at every write", b, |ch| {
        let proto = protocols(ch);
        let mut p = pipe(proto, ch.choose("inputs", 2), 1 + ch.choose("outputs", 3));
        p.short = *ch.pick("short", &[0, 1, 5]);
        match ch.choose("fault", 3) {
            0 => {}
            1 => p.fail_at = Some(1 + ch.choose("fail at", if p.short == 1 { 120 } else { 40 })),
            _ => p.interrupted_at = Some(1 + ch.choose("interrupted at", if p.short == 1 { 120 } else { 40 })),
        }
        p.split = ch.choose("split", 2) == 0;
        run_pipe(ch, &p)
    });
    ctx.explore("kinds of failures", "faults", &format!("inputs and outputs that fail at some of their places, each with every one of {} kinds of errors, and most of their schedules", KINDS.len()), 1, |ch| {
        let proto = protocols(ch);
        let mut p = pipe(proto, 2, 2);
        p.kind = *ch.pick("kind", KINDS);
        let all: usize = p.inputs.iter().map(|i| i.len()).sum();
        let first = p.inputs[0].len();
        match ch.choose("which", 2) {
            0 => p.fail_in = Some(*ch.pick("fail after", &[0, 5, 20, 22, first - 1, first, first + 1, all - 1, all])),
            _ => p.fail_at = Some(1 + ch.choose("fail at", 8)),
        }
        p.piece = *ch.pick("piece", &[0, 7]);
        run_pipe(ch, &p)
    });
    ctx.explore("both fail", "faults", "all schedules with an input and an output that fail", b, |ch| {
        let proto = protocols(ch);
        let mut p = pipe(proto, 2, 2);
        let all: usize = p.inputs.iter().map(|i| i.len()).sum();
        p.fail_in = Some(*ch.pick("fail after", &[0, 5, all / 2, all - 1, all]));
        p.fail_at = Some(1 + ch.choose("fail at", 8));
        run_pipe(ch, &p)
    });
    // The whole server.
    let d = ctx.by(3, 4);
    for proto in [Proto::Lsp, Proto::Dap] {
        let name = if proto == Proto::Lsp { "server with a failing output" } else { "adapter with a failing output" };
        ctx.explore(name, "faults", "all schedules of a server whose output fails at any write or flush, with immediate, deferred and asynchronous answers and notifications; the session ends with the input and reports the failure", d, |ch| {
            let mut s = Session::new(proto);
            s.ask(json!(1), "ok", "a", Ok("a"));
            s.ask(json!(2), "defer", "b", Ok("b"));
            s.note("note", "c");
            let s = s.glued();
            // Answers may miss the end of the input: the result counts here.
            let mut s = s;
            s.want.truncate(2);
            let at = 1 + ch.choose("fail at", 13);
            run_faulty(ch, &s, at, io::ErrorKind::BrokenPipe)
        });
    }
}

/// A session on an output that fails: it ends, and it ends with an error
/// if a write was refused.
fn run_faulty(ch: &mut Chooser, s: &Session, fail_at: usize, kind: io::ErrorKind) -> Result<(), Fail> {
    let world = World::default();
    let (w, s2) = (world.clone(), s.clone());
    let res = rt::run(ch, rt::Opts::delays(), move || {
        rt::set_local("stdin", Box::new(Box::new(Input::new(w.clone(), s2.steps.clone(), 0)) as Box<dyn std::io::BufRead + Send>));
        rt::set_local("stdout", Box::new(Box::new(Output { world: w.clone(), fail_at: Some(fail_at), kind: Some(kind), ..Output::default() }) as Box<dyn std::io::Write + Send>));
        serve(s2.proto, w, MirrorArgs::default()).map_err(|e| e.to_string())
    });
    match &res.end {
        End::Done { .. } => {}
        End::Deadlock(d) | End::Livelock(d) => return Err(Fail::new("the session does not end", d.clone())),
        End::Panic(m) => return Err(Fail::new("panic", m.clone())),
    }
    if !res.panics.is_empty() {
        return Err(Fail::new("a thread panics", format!("{:?}", res.panics)));
    }
    let failed = world.lock().failed;
    let got = res.value.expect("a value");
    if got.is_ok() == failed {
        return Err(Fail::new("failing output is not reported", format!("{got:?}, output failed: {failed}")));
    }
    // Every request was handled all the same.
    let log = world.lock().log.clone();
    if !log.iter().any(|l| l == "ok a") {
        return Err(Fail::new("input lost", format!("{log:?}")));
    }
    ch.observe((failed, log.len(), world.lock().out.len()));
    Ok(())
}

// ---------------------------------------------------------------------------

static FILES: AtomicUsize = AtomicUsize::new(0);

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let n = FILES.fetch_add(1, Ordering::SeqCst);
        Scratch(std::env::temp_dir().join(format!("mirror-{}-{n}", std::process::id())))
    }
    fn path(&self) -> String {
        self.0.to_str().expect("a path").to_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

/// The sessions that are recorded, by number.
fn script(proto: Proto, ch: &mut Chooser, n: usize, exit: bool) -> Session {
    let mut s = Session::new(proto);
    let mut over = false;
    for k in 0..n {
        let t = format!("{k}");
        fn answer(over: bool, t: &str) -> Result<&str, ()> {
            if over {
                Err(())
            } else {
                Ok(t)
            }
        }
        let id = if k % 2 == 1 { json!(k + 1) } else if proto == Proto::Lsp { json!(format!("i{k}")) } else { json!(-1 - k as i64) };
        match ch.choose("message", 8) {
            0 => s.ask(id, "ok", &format!("é{t}\n"), answer(over, &format!("é{t}\n"))),
            1 => s.ask(id, "async", &t, answer(over, &t)),
            2 => s.ask(id, "sleep", &t, answer(over, &t)),
            3 => s.ask(id, "defer", &t, answer(over, &t)),
            4 => s.ask(id, "lateErr", &t, Err(())),
            5 => s.ask(id, "missing", &t, Err(())),
            6 => s.note("note", &t),
            _ => {
                s.ask(id, if proto == Proto::Lsp { "shutdown" } else { "disconnect" }, &t, answer(over, &t));
                over = true;
            }
        }
    }
    if exit && proto == Proto::Lsp {
        s.step(Step::Send(frame(&json!({"jsonrpc": "2.0", "method": "exit"}))));
    }
    s
}

pub fn mirror(ctx: &mut Ctx) {
    let b = ctx.by(1, 2);
    let n = ctx.by(2, 2);
    ctx.explore("mirror", "histories", "all sessions of up to two messages from eight kinds, both protocols, with and without exit, in chunks or glued, in reads of whole chunks, 1, 2, 3, 5, 16 or 64 bytes, and their schedules: the mirror is what the server took from the input", b, |ch| {
        let proto = protocols(ch);
        let len = ch.choose("length", n + 1);
        let exit = ch.choose("exit", 2) == 1;
        let mut s = script(proto, ch, len, exit);
        if ch.choose("glued", 2) == 1 {
            s = s.glued();
        }
        let piece = *ch.pick("piece", &[0, 1, 2, 3, 5, 16, 64]);
        let sc = Scratch::new();
        let path = sc.path();
        // The mirror of an earlier session is replaced.
        if piece == 16 {
            std::fs::write(&path, "x".repeat(2000)).unwrap();
        }
        let world = World::default();
        let (w, s2) = (world.clone(), s.clone());
        let res = rt::run(ch, rt::Opts::delays(), move || {
            rt::set_local("stdin", Box::new(Box::new(Input::new(w.clone(), s2.steps.clone(), piece)) as Box<dyn std::io::BufRead + Send>));
            rt::set_local("stdout", Box::new(Box::new(Output { world: w.clone(), ..Output::default() }) as Box<dyn std::io::Write + Send>));
            let r = serve(s2.proto, w.clone(), MirrorArgs { mirror: path.clone(), replay: String::new() }).map_err(|e| e.to_string());
            // Now the process would end.
            let file = std::fs::read(&path).unwrap_or_default();
            let consumed = w.lock().consumed.clone();
            (r, file, consumed)
        });
        let (End::Done { .. }, Some((r, file, consumed))) = (&res.end, &res.value) else {
            return Err(Fail::new("the session fails", format!("{:?} {:?}", res.end, res.panics)));
        };
        if r.is_err() || !res.panics.is_empty() {
            return Err(Fail::new("the session fails", format!("{r:?} {:?}", res.panics)));
        }
        if file != consumed {
            return Err(Fail::new("the mirror differs from the input", format!(
                "taken {:?}, mirrored {:?}", String::from_utf8_lossy(consumed), String::from_utf8_lossy(file))));
        }
        let all: Vec<u8> = s.steps.iter().filter_map(|s| match s { Step::Send(b) => Some(b.clone()), _ => None }).flatten().collect();
        if consumed != &all {
            return Err(Fail::new("input not taken", format!("{} of {} bytes", consumed.len(), all.len())));
        }
        ch.observe(file);
        Ok(())
    });

    ctx.explore("mirror on a full disk", "faults", "the same sessions mirrored to a file that takes nothing: they go on as if there was no mirror", b, |ch| {
        let proto = protocols(ch);
        let len = ch.choose("length", n + 1);
        let s = script(proto, ch, len, false);
        let piece = *ch.pick("piece", &[0, 3, 16]);
        let world = World::default();
        let (w, s2) = (world.clone(), s.clone());
        let res = rt::run(ch, rt::Opts::delays(), move || {
            rt::set_local("stdin", Box::new(Box::new(Input::new(w.clone(), s2.steps.clone(), piece)) as Box<dyn std::io::BufRead + Send>));
            rt::set_local("stdout", Box::new(Box::new(Output { world: w.clone(), ..Output::default() }) as Box<dyn std::io::Write + Send>));
            serve(s2.proto, w, MirrorArgs { mirror: "/dev/full".into(), replay: String::new() }).map_err(|e| e.to_string())
        });
        if !matches!(&res.end, End::Done { .. }) || !matches!(res.value, Some(Ok(()))) || !res.panics.is_empty() {
            return Err(Fail::new("a full disk ends the session", format!("{:?} {:?} {:?}", res.end, res.value, res.panics)));
        }
        let all: Vec<u8> = s.steps.iter().filter_map(|s| match s { Step::Send(b) => Some(b.clone()), _ => None }).flatten().collect();
        let w = world.lock();
        if w.consumed != all {
            return Err(Fail::new("input not taken", format!("{} of {} bytes", w.consumed.len(), all.len())));
        }
        ch.observe((&w.log, w.out.len()));
        Ok(())
    });

    let b = ctx.by(2, 3);
    let n = ctx.by(2, 3);
    ctx.explore("replay", "schedules", "all sessions of up to two (three) messages from eight kinds, both protocols, with and without exit, replayed from a file in all schedules: every request is answered before the session ends, by itself", b, |ch| {
        let proto = protocols(ch);
        let len = ch.choose("length", n + 1);
        let exit = ch.choose("exit", 2) == 1;
        let s = script(proto, ch, len, exit);
        replay(ch, &s, "recorded input")
    });
    ctx.explore("replay of racing answers", "schedules", "the replay of a session in which two workers answer one request and a task another one", ctx.by(3, 4), |ch| {
        let proto = protocols(ch);
        let mut s = Session::new(proto);
        s.ask(json!(1), "twice", "a", Ok("a"));
        s.ask(json!(2), "sleep", "b", Ok("b"));
        s.ask(json!(3), "defer", "c", Ok("c"));
        replay(ch, &s, "recorded input")
    });
}

fn replay(ch: &mut Chooser, s: &Session, what: &str) -> Result<(), Fail> {
    let sc = Scratch::new();
    let all: Vec<u8> = s.steps.iter().filter_map(|s| match s { Step::Send(b) => Some(b.clone()), _ => None }).flatten().collect();
    std::fs::write(&sc.0, all).map_err(|e| Fail::new("harness", e.to_string()))?;
    // Nothing of the real input is used.
    let mut silent = s.clone();
    silent.steps.clear();
    let args = MirrorArgs { mirror: String::new(), replay: sc.path() };
    let o = run_session(ch, &silent, args, 0, None).map_err(|f| Fail::new(format!("{what}: {}", f.sig), f.msg))?;
    // The same messages in the same order.
    let mut notes: Vec<String> = o.log.iter().filter(|l| l.starts_with("note")).cloned().collect();
    let want: Vec<String> = s
        .steps
        .iter()
        .filter_map(|s| match s {
            Step::Send(b) => frames(b).ok(),
            _ => None,
        })
        .flatten()
        // What the server does after the end is not the question.
        .take_while(|m| m["method"] != "shutdown" && m["command"] != "disconnect")
        .filter(|m| m["method"] == "note" || m["event"] == "note")
        .map(|m| format!("note {}", m.get("params").or(m.get("body")).map_or("?", |p| p["tag"].as_str().unwrap_or("?"))))
        .collect();
    if s.ends() {
        notes.truncate(want.len());
    }
    if notes != want {
        return Err(Fail::new("replayed notifications", format!("expected {want:?}, got {notes:?}")));
    }
    server::observe(ch, &o);
    Ok(())
}
