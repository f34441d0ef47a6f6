//! Framing and message round trips.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{self, BufRead, Read, Write};

use mccore::{Chooser, Ctx, Fail};
use serde_json::{json, Value};
use sync_ls::{Message, MessageKind};

use crate::base::wire;

type R = Result<(), Fail>;

/// Counts what each thread allocates.
pub struct Counting;
thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n)
        }
    });
}
/// The largest single allocation of this thread since the last call.
fn largest() -> usize {
    LARGEST.with(|l| l.replace(0))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Lsp,
    Dap,
}
impl Kind {
    pub fn read(self, r: &mut impl BufRead) -> io::Result<Option<Message>> {
        match self {
            Kind::Lsp => Message::read_lsp(r),
            Kind::Dap => Message::read_dap(r),
        }
    }
    #[allow(dead_code)]
    pub fn mk(self) -> MessageKind {
        match self {
            Kind::Lsp => MessageKind::Lsp,
            Kind::Dap => MessageKind::Dap,
        }
    }
    fn parse(self, v: &Value) -> Message {
        match self {
            Kind::Lsp => Message::Lsp(serde_json::from_value(v.clone()).unwrap()),
            Kind::Dap => Message::Dap(serde_json::from_value(v.clone()).unwrap()),
        }
    }
}

/// A reader that hands out the bytes in pieces, with interruptions.
pub struct Pieces<'a> {
    data: &'a [u8],
    at: usize,
    /// Where pieces end, ascending.
    cuts: Vec<usize>,
    /// A piece length for all pieces, if not 0.
    every: usize,
    /// Fails with `Interrupted` once before these positions.
    interrupts: Vec<usize>,
    /// Fails for good from this position on.
    fail_at: Option<usize>,
    idle: usize,
}

impl<'a> Pieces<'a> {
    pub fn new(data: &'a [u8]) -> Pieces<'a> {
        Pieces { data, at: 0, cuts: vec![], every: 0, interrupts: vec![], fail_at: None, idle: 0 }
    }
    fn end(&self) -> usize {
        let mut e = self.data.len();
        if self.every > 0 {
            e = e.min((self.at / self.every + 1) * self.every);
        }
        for &c in self.cuts.iter().chain(&self.fail_at) {
            if c > self.at {
                e = e.min(c);
            }
        }
        e
    }
    fn check(&mut self) -> io::Result<()> {
        if let Some(i) = self.interrupts.iter().position(|&i| i == self.at) {
            self.interrupts.remove(i);
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.fail_at == Some(self.at) {
            return Err(io::Error::other("broken input"));
        }
        if self.at == self.data.len() {
            self.idle += 1;
            if self.idle > 1000 {
                panic!("reads on and on at the end of the input");
            }
        }
        Ok(())
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.check()?;
        let n = buf.len().min(self.end() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.check()?;
        Ok(&self.data[self.at..self.end()])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

/// A writer that takes few bytes at a time and only keeps what was flushed.
struct Slow {
    staged: Vec<u8>,
    done: Vec<u8>,
    every: usize,
    /// Takes one byte, interrupts or fails at these points of the writing.
    short: Vec<usize>,
    interrupt: Option<usize>,
    fail: Option<usize>,
    fail_flush: Option<usize>,
    flushes: usize,
}
impl Slow {
    fn new() -> Slow {
        Slow {
            staged: vec![],
            done: vec![],
            every: usize::MAX,
            short: vec![],
            interrupt: None,
            fail: None,
            fail_flush: None,
            flushes: 0,
        }
    }
    fn total(&self) -> usize {
        self.staged.len() + self.done.len()
    }
}
impl Write for Slow {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let at = self.total();
        if self.interrupt == Some(at) {
            self.interrupt = None;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.fail == Some(at) {
            return Err(io::Error::other("broken output"));
        }
        let mut n = buf.len().min(self.every);
        for &c in self.short.iter().chain(&self.fail).chain(&self.interrupt) {
            if c > at && c < at + n {
                n = c - at;
            }
        }
        self.staged.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.fail_flush == Some(self.flushes) {
            return Err(io::Error::other("broken flush"));
        }
        self.done.append(&mut self.staged);
        Ok(())
    }
}

fn texts() -> Vec<Value> {
    vec![
        json!("a"),
        json!("né→𝔘"),
        json!("Content-Length: 3\r\n\r\n{}"),
        json!("\u{0}\u{1f}\"\\/\u{7f}\r\n"),
        json!({"k": ["\u{2028}", {"x": null}], "": -0.5}),
    ]
}

/// Messages of both protocols as JSON.
fn msgs(kind: Kind) -> Vec<Value> {
    let mut v = vec![];
    for (i, t) in texts().into_iter().enumerate() {
        v.push(match (kind, i % 3) {
            (Kind::Lsp, 0) => json!({"jsonrpc": "2.0", "method": "m", "params": t}),
            (Kind::Lsp, 1) => json!({"jsonrpc": "2.0", "id": i, "method": "m", "params": t}),
            (Kind::Lsp, _) => json!({"jsonrpc": "2.0", "id": "x", "result": t}),
            (Kind::Dap, 0) => json!({"jsonrpc": "2.0", "type": "event", "seq": i, "event": "e", "body": t}),
            (Kind::Dap, 1) => json!({"jsonrpc": "2.0", "type": "request", "seq": i, "command": "c", "arguments": t}),
            (Kind::Dap, _) => json!({"jsonrpc": "2.0", "type": "response", "request_seq": i, "success": true, "body": t}),
        });
    }
    v
}

/// Frames of the headers and bodies a peer may send.
fn frame(header: usize, body: &Value) -> Vec<u8> {
    let b = body.to_string();
    let n = b.len();
    let h = match header {
        0 => format!("Content-Length: {n}\r\n\r\n"),
        1 => format!("content-length: {n}\r\n\r\n"),
        2 => format!("CONTENT-LENGTH: {n}\r\n\r\n"),
        3 => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"),
        4 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {n}\r\n\r\n"),
        5 => format!("X-Note: a: b: c\r\nConTent-LenGth: {n}\r\nX-Content-Length: 1\r\n\r\n"),
        _ => format!("Content-Length: {n:05}\r\n\r\n"),
    };
    [h.into_bytes(), b.into_bytes()].concat()
}
const HEADERS: usize = 7;

/// Reads everything and compares; after each message, exactly its bytes are
/// consumed.
fn read_all(kind: Kind, r: &mut Pieces, want: &[Value], ends: &[usize]) -> R {
    let bad = |sig: &str, msg: String| Err(Fail::new(sig.to_string(), format!("{kind:?}: {msg}")));
    for (i, w) in want.iter().enumerate() {
        match mccore::rt::quietly(|| kind.read(r)) {
            Err(p) => return bad("reading panics", format!("reading message {i} panicked: {p}")),
            Ok(Err(e)) => return bad("reading fails", format!("reading message {i} ({w}) failed: {e}")),
            Ok(Ok(None)) => return bad("message lost", format!("the input ended before message {i} ({w})")),
            Ok(Ok(Some(m))) => {
                let got = wire(m);
                let mut w = w.clone();
                w["jsonrpc"] = json!("2.0");
                if got != w {
                    return bad("message changed", format!("message {i}: expected {w}, got {got}"));
                }
            }
        }
        if r.at != ends[i] {
            return bad("wrong bytes consumed", format!("after message {i}, {} bytes are consumed instead of {}", r.at, ends[i]));
        }
    }
    match mccore::rt::quietly(|| kind.read(r)) {
        Ok(Ok(None)) => Ok(()),
        x => bad("end of input", format!("expected the end of the input, got {x:?}")),
    }
}

fn pick_stream(i: usize) -> (Kind, Vec<Value>, Vec<u8>, Vec<usize>) {
    let kind = if i % 2 == 0 { Kind::Lsp } else { Kind::Dap };
    let m = msgs(kind);
    let k = m.len();
    let i = i / 2;
    let (a, b) = (i % k, i / k % k);
    let h = i % HEADERS;
    let list = vec![m[a].clone(), m[b].clone()];
    let mut data = frame(h, &list[0]);
    let mut ends = vec![data.len()];
    data.extend(frame((h + 1 + i / HEADERS) % HEADERS, &list[1]));
    ends.push(data.len());
    (kind, list, data, ends)
}
const STREAMS: usize = 2 * 25;

pub fn framing(ctx: &mut Ctx) {
    // Pairs of messages with every pair of cuts.
    let streams: Vec<_> = (0..STREAMS).map(pick_stream).collect();
    let mut jobs = vec![];
    for (i, s) in streams.iter().enumerate() {
        let n = s.2.len();
        for c in 0..n {
            jobs.push((i, c));
        }
    }
    ctx.inputs(
        "two cuts",
        "all pairs of places where the stream of two framed messages (all pairs of 5 messages of each protocol, 7 styles of headers) is cut into reads, each also with an interruption at the cuts",
        jobs.len() as u64,
        |j, obs| {
            let (i, c) = jobs[j as usize];
            let (kind, list, data, ends) = &streams[i];
            obs.outcome((i, c % 16));
            obs.nontrivial();
            obs.sample(|| format!("stream {i} cut at {c}: {:?}", String::from_utf8_lossy(data)));
            for d in c..data.len() {
                for intr in [false, true] {
                    if intr && d != c {
                        continue;
                    }
                    let mut r = Pieces::new(data);
                    r.cuts = vec![c, d];
                    if intr {
                        r.interrupts = vec![c];
                    }
                    read_all(*kind, &mut r, list, ends)
                        .map_err(|f| Fail::new(f.sig, format!("cuts at {c}, {d} (interrupted: {intr}): {}", f.msg)))?;
                }
            }
            Ok(())
        },
    );
    if ctx.thorough() {
        let few: Vec<usize> = (0..STREAMS).step_by(6).collect();
        let mut jobs = vec![];
        for &i in &few {
            let n = streams[i].2.len();
            for c in 0..n {
                for d in c..n {
                    jobs.push((i, c, d));
                }
            }
        }
        ctx.inputs("three cuts", "all triples of places of nine of these streams", jobs.len() as u64, |j, obs| {
            let (i, c, d) = jobs[j as usize];
            let (kind, list, data, ends) = &streams[i];
            obs.outcome((i, c, d % 8));
            obs.nontrivial();
            for e in d..data.len() {
                let mut r = Pieces::new(data);
                r.cuts = vec![c, d, e];
                read_all(*kind, &mut r, list, ends)?;
            }
            Ok(())
        });
    }
    // Uniform pieces, long sequences, every header style.
    let n = 2 * HEADERS * 130;
    ctx.inputs(
        "uniform pieces",
        "all sizes of equal reads from 1 to 130 bytes, all header styles, all messages of a protocol in one stream, read directly and through buffers of that size",
        n as u64,
        |j, obs| {
            let j = j as usize;
            let kind = if j % 2 == 0 { Kind::Lsp } else { Kind::Dap };
            let h = j / 2 % HEADERS;
            let every = j / 2 / HEADERS + 1;
            let list = msgs(kind);
            let mut data = vec![];
            let mut ends = vec![];
            for m in &list {
                data.extend(frame(h, m));
                ends.push(data.len());
            }
            obs.outcome((h, every));
            obs.nontrivial();
            obs.sample(|| format!("{kind:?}, header style {h}, pieces of {every}"));
            let mut r = Pieces::new(&data);
            r.every = every;
            read_all(kind, &mut r, &list, &ends)?;
            let mut r = Pieces::new(&data);
            r.interrupts = (0..data.len()).step_by(every).collect();
            r.every = every;
            read_all(kind, &mut r, &list, &ends)?;
            // Through a real buffered reader.
            let mut r = io::BufReader::with_capacity(every, &data[..]);
            for w in &list {
                match kind.read(&mut r).map(|m| m.map(wire)) {
                    Ok(Some(m)) if &m == w => {}
                    x => return Err(Fail::new("buffered reading", format!("expected {w}, got {x:?}"))),
                }
            }
            match kind.read(&mut r) {
                Ok(None) => Ok(()),
                x => Err(Fail::new("end of input", format!("expected the end, got {x:?}"))),
            }
        },
    );
    // Bodies around the sizes of buffers.
    let sizes: Vec<usize> = [1usize << 10, 4096, 8192, 16384, 32768, 65536, 1 << 17, 1 << 20]
        .iter()
        .flat_map(|&s| (s - 70..s + 6).step_by(if s > 100000 { 15 } else { 1 }))
        .collect();
    ctx.inputs(
        "sizes",
        "bodies of all sizes around powers of two from 1 KiB to 1 MiB (plain and with multi-byte characters across the border), followed by another message",
        sizes.len() as u64 * 2,
        |j, obs| {
            let size = sizes[j as usize / 2];
            let fill = if j % 2 == 0 { "x".repeat(size) } else { "é".repeat(size / 2) };
            let a = json!({"jsonrpc": "2.0", "id": 1, "method": "m", "params": fill});
            let b = json!({"jsonrpc": "2.0", "method": "n"});
            let mut data = vec![];
            Kind::Lsp.parse(&a).write(&mut data).unwrap();
            let e = data.len();
            Kind::Lsp.parse(&b).write(&mut data).unwrap();
            obs.outcome(size);
            obs.nontrivial();
            obs.sample(|| format!("body of about {size} bytes"));
            let mut r = Pieces::new(&data);
            r.every = 8192;
            read_all(Kind::Lsp, &mut r, &[a.clone(), b.clone()], &[e, data.len()])?;
            let mut r = io::BufReader::new(&data[..]);
            for w in [a, b] {
                match Kind::Lsp.read(&mut r).map(|m| m.map(wire_any)) {
                    Ok(Some(m)) if m == w => {}
                    _ => return Err(Fail::new("large message changed", format!("a body of {size} bytes was not read back"))),
                }
            }
            Ok(())
        },
    );
    // Writing.
    let all: Vec<(Kind, Value)> =
        [Kind::Lsp, Kind::Dap].into_iter().flat_map(|k| msgs(k).into_iter().map(move |m| (k, m))).collect();
    let mut jobs = vec![];
    for i in 0..all.len() {
        let n = frame(0, &all[i].1).len();
        for c in 0..=n {
            jobs.push((i, c));
        }
    }
    ctx.inputs(
        "writing",
        "all messages; writers that take the bytes in equal pieces of any size, in three pieces cut anywhere, with an interruption or a failure at any byte, or with a failing flush; what was flushed is a prefix of the frame, all of it on success, and failures are reported",
        jobs.len() as u64,
        |j, obs| {
            let (i, c) = jobs[j as usize];
            let (kind, m) = &all[i];
            obs.outcome((i, c));
            obs.nontrivial();
            obs.sample(|| format!("{kind:?} message {m} with an incident at byte {c}"));
            let mut plain = vec![];
            kind.parse(m).write(&mut plain).unwrap();
            let text = String::from_utf8(plain.clone()).unwrap();
            let Some((head, body)) = text.split_once("\r\n\r\n") else {
                return Err(Fail::new("no header", format!("wrote {text:?}")));
            };
            if !head.split("\r\n").any(|h| h == format!("Content-Length: {}", body.len())) {
                return Err(Fail::new("wrong Content-Length", format!("wrote {text:?}")));
            }
            if serde_json::from_str::<Value>(body).ok().as_ref() != Some(m) {
                return Err(Fail::new("body changed", format!("{m} was written as {body}")));
            }
            let run = |w: &mut Slow| mccore::rt::quietly(|| kind.parse(m).write(w));
            let good = |w: &Slow, r: Result<io::Result<()>, String>, what: &str| match r {
                Ok(Ok(())) if w.done == plain => Ok(()),
                r => Err(Fail::new(
                    format!("writing in pieces: {what}"),
                    format!("{what} at {c}: {r:?}, wrote {:?}", String::from_utf8_lossy(&w.done)),
                )),
            };
            let mut w = Slow::new();
            w.every = c + 1;
            let r = run(&mut w);
            good(&w, r, "equal pieces")?;
            for d in c..=plain.len() {
                let mut w = Slow::new();
                w.short = vec![c, d];
                let r = run(&mut w);
                good(&w, r, "three pieces")?;
            }
            if c < plain.len() {
                let mut w = Slow::new();
                w.interrupt = Some(c);
                let r = run(&mut w);
                good(&w, r, "interruption")?;
                let mut w = Slow::new();
                w.fail = Some(c);
                match run(&mut w) {
                    Ok(Err(_)) if plain.starts_with(&[&w.done[..], &w.staged[..]].concat()) => {}
                    x => return Err(Fail::new("write failure swallowed", format!("failure at {c}: {x:?}"))),
                }
            }
            let mut w = Slow::new();
            w.fail_flush = Some(1);
            match run(&mut w) {
                Ok(Err(_)) => Ok(()),
                x => Err(Fail::new("flush failure swallowed", format!("{x:?}"))),
            }
        },
    );
}

/// `wire` without searching a large buffer for the header's end by windows.
fn wire_any(m: Message) -> Value {
    let mut buf = vec![];
    m.write(&mut buf).unwrap();
    let at = buf.iter().position(|&b| b == b'{').unwrap();
    serde_json::from_slice(&buf[at..]).unwrap()
}

/// What a reader may make of some bytes.
#[derive(Debug, PartialEq)]
enum Ref {
    /// A frame by the letter; its body.
    Frame(Vec<u8>, usize),
    /// The input is over between two frames.
    End,
    /// No frame.
    Bad,
    /// A frame by a generous reading only; rejecting it is fine, too.
    Generous(Vec<u8>, usize),
}

/// The header syntax, written down independently.
fn reference(data: &[u8]) -> Ref {
    if data.is_empty() {
        return Ref::End;
    }
    let mut at = 0;
    let mut len: Option<usize> = None;
    let mut generous = false;
    loop {
        let Some(nl) = data[at..].iter().position(|&b| b == b'\n') else { return Ref::Bad };
        let line = &data[at..at + nl];
        at += nl + 1;
        let Some(line) = line.strip_suffix(b"\r") else { return Ref::Bad };
        if line.is_empty() {
            break;
        }
        let Ok(line) = std::str::from_utf8(line) else { return Ref::Bad };
        let Some((name, value)) = line.split_once(": ") else {
            // `Name:value` is a header by the generous reading of HTTP.
            let Some((name, value)) = line.split_once(':') else { return Ref::Bad };
            if name.eq_ignore_ascii_case("content-length") {
                match value.trim().parse() {
                    Ok(n) => len = Some(n),
                    Err(_) => return Ref::Bad,
                }
            }
            generous = true;
            continue;
        };
        if line.contains('\r') || name.is_empty() || name.contains([':', ' ']) {
            generous = true;
        }
        if name.eq_ignore_ascii_case("content-length") {
            if len.is_some() {
                generous = true;
            }
            if value.is_empty() || !value.bytes().all(|b| b.is_ascii_digit()) {
                let v = value.trim();
                let v = v.strip_prefix('+').unwrap_or(v);
                if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) {
                    return Ref::Bad;
                }
                generous = true;
            }
            let v = value.trim();
            match v.strip_prefix('+').unwrap_or(v).parse() {
                Ok(n) => len = Some(n),
                Err(_) => return Ref::Bad,
            }
        }
    }
    let Some(n) = len else { return Ref::Bad };
    if data.len() - at < n {
        return Ref::Bad;
    }
    let body = data[at..at + n].to_vec();
    if generous {
        Ref::Generous(body, at + n)
    } else {
        Ref::Frame(body, at + n)
    }
}

/// Reads some bytes to their end and compares with the reference.
fn hostile(kind: Kind, data: &[u8], every: usize) -> Result<(usize, bool), Fail> {
    let mut r = Pieces::new(data);
    r.every = every;
    let show = || format!("{kind:?} {:?}", String::from_utf8_lossy(data));
    let mut n = 0;
    loop {
        let at = r.at;
        let want = reference(&data[at..]);
        largest();
        let got = mccore::rt::quietly(|| kind.read(&mut r));
        let most = largest();
        if most > 64 * data.len() + 65536 {
            return Err(Fail::new(
                "allocates out of proportion",
                format!("{}: allocated {most} bytes at once for an input of {} bytes", show(), data.len()),
            ));
        }
        let got = match got {
            Err(p) => return Err(Fail::new("reading panics", format!("{}: {p}", show()))),
            Ok(g) => g,
        };
        let (body, end, sure) = match &want {
            Ref::End => {
                return match got {
                    Ok(None) => Ok((n, true)),
                    x => Err(Fail::new("end of input", format!("{}: expected the end, got {x:?}", show()))),
                }
            }
            Ref::Bad => {
                return match got {
                    Err(_) => Ok((n, false)),
                    Ok(x) => Err(Fail::new(
                        if x.is_some() { "accepts a malformed frame" } else { "does not report a truncated frame" },
                        format!("{}: expected an error at byte {at}, got {x:?}", show()),
                    )),
                }
            }
            Ref::Frame(b, e) => (b, *e, true),
            Ref::Generous(b, e) => (b, *e, false),
        };
        // Whether the body is a message is serde's call; that it is JSON is not.
        let text = std::str::from_utf8(body).ok().and_then(|t| serde_json::from_str::<Value>(t).ok());
        match got {
            Ok(None) => return Err(Fail::new("message lost", format!("{}: took a frame for the end", show()))),
            Ok(Some(m)) => {
                let got = wire(m);
                let Some(t) = &text else {
                    return Err(Fail::new("accepts a body that is no JSON", format!("{}: {got}", show())));
                };
                if !same(&got, t) {
                    return Err(Fail::new("misread a message", format!("{}: read {got}, sent {t}", show())));
                }
                if r.at != at + end {
                    return Err(Fail::new("wrong bytes consumed", format!("{}: {} instead of {}", show(), r.at, at + end)));
                }
            }
            Err(e) => {
                if sure && text.as_ref().is_some_and(|t| well_formed(kind, t)) {
                    return Err(Fail::new("rejects a well-formed message", format!("{}: {e}", show())));
                }
                return Ok((n, false));
            }
        }
        n += 1;
    }
}

/// Everything that was read is in what was sent.
fn same(got: &Value, sent: &Value) -> bool {
    let (Some(g), Some(s)) = (got.as_object(), sent.as_object()) else { return false };
    g.iter().all(|(k, v)| k == "jsonrpc" || s.get(k) == Some(v))
}

fn well_formed(kind: Kind, v: &Value) -> bool {
    let int = |v: &Value| v.is_i64();
    match kind {
        Kind::Lsp => {
            let id = v.get("id").is_some_and(|i| i.is_string() || i.as_i64().is_some_and(|n| i32::try_from(n).is_ok()));
            let no_id = v.get("id").is_none();
            let m = v.get("method").is_some_and(|m| m.is_string());
            let res = v.get("result").is_some() && v.get("error").is_none() && v.get("method").is_none();
            (m && (id || no_id)) || (id && res)
        }
        Kind::Dap => match v.get("type").and_then(|t| t.as_str()) {
            Some("request") => int(&v["seq"]) && v["command"].is_string(),
            Some("event") => int(&v["seq"]) && v["event"].is_string(),
            _ => false,
        },
    }
}

pub fn malformed(ctx: &mut Ctx) {
    let body = r#"{"jsonrpc":"2.0","method":"m"}"#;
    let len = body.len().to_string();
    let frags: Vec<Vec<u8>> = [
        "Content-Length: ",
        "content-length:",
        "X: y\r\n",
        "",
        &len,
        "2",
        "0",
        "+2",
        "-1",
        "1073741824",
        "18446744073709551615",
        "18446744073709551616",
        " ",
        "\r\n",
        "\n",
        "\r",
        ": ",
        "{}",
        body,
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .chain([vec![0xff], "é".as_bytes().to_vec(), vec![0], b"Content-Length: 2\r\n\r\n".to_vec(), format!("Content-Length: {len}\r\n\r\n").into_bytes()])
    .collect();
    let k = frags.len() as u64;
    let d = ctx.by(5, 6);
    let n = k.pow(d);
    ctx.inputs(
        "fragments",
        &format!("all concatenations of up to {d} of {k} fragments of headers, numbers, line ends, bodies and stray bytes"),
        n,
        |mut i, obs| {
            let mut data = vec![];
            for _ in 0..d {
                data.extend_from_slice(&frags[(i % k) as usize]);
                i /= k;
            }
            let r = hostile(Kind::Lsp, &data, 0)?;
            obs.outcome((r, data.len()));
            if r.0 > 0 {
                obs.nontrivial();
            }
            obs.sample(|| format!("{:?}: {r:?}", String::from_utf8_lossy(&data)));
            Ok(())
        },
    );
    // Headers of more lines, with a body.
    let lines: Vec<&str> = vec![
        "Content-Length: 30\r\n", "content-length: 30\r\n", "Content-Length: 2\r\n", "Content-Length: 31\r\n", "Content-Length:30\r\n",
        "Content-Length: \r\n", "Content-Length 30\r\n", "Content-Length: 30\n", "X-Y: z\r\n", "Xy\r\n", ": \r\n", "é: ü\r\n",
        "Content-Length : 30\r\n", "Content-Length: 030\r\n", "Content-Length: 3e1\r\n", "Content-Length: 0x1e\r\n",
        "Content-Length: 30 \r\n", " Content-Length: 30\r\n", "Content-Length: 99999999999\r\n", "\n", "\r", "Content-Length: 30\r\r\n",
    ];
    let k = lines.len() as u64;
    let d = ctx.by(4, 5);
    let n = (k + 1).pow(d) * 3;
    ctx.inputs(
        "header lines",
        &format!("all headers of up to {d} of {k} good and bad lines, before bodies that are complete, one byte short or followed by another frame"),
        n,
        |mut i, obs| {
            let v = i % 3;
            i /= 3;
            let mut data = String::new();
            for _ in 0..d {
                let c = (i % (k + 1)) as usize;
                i /= k + 1;
                if c > 0 {
                    data.push_str(lines[c - 1]);
                }
            }
            data.push_str("\r\n");
            data.push_str(if v == 1 { &body[..body.len() - 1] } else { body });
            if v == 2 {
                data.push_str("Content-Length: 30\r\n\r\n");
                data.push_str(body);
            }
            let r = hostile(Kind::Lsp, data.as_bytes(), 0)?;
            obs.outcome((r, data.len()));
            if r.0 > 0 {
                obs.nontrivial();
            }
            obs.sample(|| format!("{data:?}: {r:?}"));
            Ok(())
        },
    );
    // Truncations and corruptions of good streams, in several pieces.
    let streams: Vec<_> = (0..STREAMS).map(pick_stream).collect();
    let jobs: Vec<(usize, usize)> =
        streams.iter().enumerate().flat_map(|(i, s)| (0..=s.2.len()).map(move |c| (i, c))).collect();
    ctx.inputs(
        "truncations",
        "all prefixes of streams of two framed messages, read at once and byte by byte, and the same where the input fails instead of ending",
        jobs.len() as u64,
        |j, obs| {
            let (i, c) = jobs[j as usize];
            let (kind, list, data, ends) = &streams[i];
            let whole = ends.iter().filter(|&&e| e <= c).count();
            obs.outcome((i, c));
            obs.nontrivial();
            obs.sample(|| format!("first {c} bytes of stream {i}"));
            for every in [0, 1, 7] {
                let (n, clean) = hostile(*kind, &data[..c], every)?;
                let at_border = c == 0 || ends.contains(&c);
                if n != whole || clean != at_border {
                    return Err(Fail::new(
                        "truncated input misread",
                        format!("{kind:?} {list:?} cut at {c}: {n} messages (expected {whole}), clean end: {clean}"),
                    ));
                }
            }
            let mut r = Pieces::new(data);
            r.fail_at = Some(c);
            for k in 0..whole {
                match mccore::rt::quietly(|| kind.read(&mut r)) {
                    Ok(Ok(Some(_))) => {}
                    x => return Err(Fail::new("message before an input failure lost", format!("message {k}: {x:?}"))),
                }
            }
            match mccore::rt::quietly(|| kind.read(&mut r)) {
                Ok(Err(_)) => Ok(()),
                x => Err(Fail::new("input failure swallowed", format!("failure at {c}: {x:?}"))),
            }
        },
    );
    let subst: Vec<u8> = b"\0\n\r :0129-+aZ{}\"\\,\xff\xc3".to_vec();
    let jobs: Vec<(usize, usize)> =
        streams.iter().enumerate().flat_map(|(i, s)| (0..s.2.len()).map(move |c| (i, c))).collect();
    let second = ctx.thorough();
    ctx.inputs(
        "corruptions",
        &format!("all single bytes of these streams replaced by each of {} others, removed or doubled{}", subst.len(), if second { ", and each pair of such replacements within four bytes" } else { "" }),
        jobs.len() as u64,
        |j, obs| {
            let (i, c) = jobs[j as usize];
            let (kind, _, data, ends) = &streams[i];
            let whole = ends.iter().filter(|&&e| e <= c).count();
            obs.outcome((i, c));
            obs.nontrivial();
            obs.sample(|| format!("stream {i} corrupted at byte {c}"));
            let run = |d: &[u8]| {
                let (n, _) = hostile(*kind, d, 0)?;
                if n < whole {
                    return Err(Fail::new("corruption reaches back", format!("corruption at {c}: only {n} messages")));
                }
                Ok(())
            };
            for &s in &subst {
                let mut d = data.clone();
                d[c] = s;
                run(&d)?;
                if second {
                    for e in c + 1..(c + 4).min(data.len()) {
                        for &t in &subst {
                            let mut d2 = d.clone();
                            d2[e] = t;
                            run(&d2)?;
                        }
                    }
                }
            }
            let mut d = data.clone();
            d.remove(c);
            run(&d)?;
            let mut d = data.clone();
            d.insert(c, data[c]);
            run(&d)
        },
    );
    // Bodies: JSON values of every shape that are no messages.
    let bodies: Vec<String> = {
        let vals = ["null", "1", "\"m\"", "[]", "{}", "true", "1.5", "{\"a\":1}", "12345678901234567890"];
        let mut v: Vec<String> = vals.iter().map(|s| s.to_string()).collect();
        for a in vals {
            for b in vals {
                for (x, y) in [("id", "method"), ("id", "result"), ("id", "error"), ("method", "params"), ("type", "seq")] {
                    v.push(format!("{{\"{x}\":{a},\"{y}\":{b}}}"));
                }
            }
            for t in ["request", "response", "event", "Request", ""] {
                for k in ["seq", "request_seq", "command", "event"] {
                    v.push(format!("{{\"type\":\"{t}\",\"{k}\":{a}}}"));
                    let rest: Vec<&str> = ["seq", "command", "event"].into_iter().filter(|r| *r != k).collect();
                    v.push(format!("{{\"type\":\"{t}\",\"{k}\":{a},{}}}", rest.iter().map(|r| if *r == "seq" { "\"seq\":1".to_string() } else { format!("\"{r}\":\"c\"") }).collect::<Vec<_>>().join(",")));
                }
            }
        }
        v.push("[".repeat(100_000));
        v.push(format!("{{\"method\":\"m\",\"params\":{}{}}}", "[".repeat(5000), "]".repeat(5000)));
        v.push("\u{feff}{\"method\":\"m\"}".into());
        v
    };
    ctx.inputs("bodies", "JSON bodies of every shape and type of field that may or may not be messages, and deeply nested ones", bodies.len() as u64 * 2, |j, obs| {
        let b = &bodies[j as usize / 2];
        let kind = if j % 2 == 0 { Kind::Lsp } else { Kind::Dap };
        let data = format!("Content-Length: {}\r\n\r\n{b}Content-Length: 30\r\n\r\n{body}", b.len());
        let r = hostile(kind, data.as_bytes(), 0)?;
        obs.outcome((r, b.len()));
        if r.0 > 0 {
            obs.nontrivial();
        }
        obs.sample(|| format!("{:.80}: {r:?}", b));
        Ok(())
    });
}

/// A JSON object whose fields come in any order.
fn permuted(ch: &mut Chooser, fields: Vec<(String, String)>) -> String {
    let mut rest = fields;
    let mut out = vec![];
    while !rest.is_empty() {
        let i = ch.choose("field order", rest.len());
        let (k, v) = rest.remove(i);
        out.push(format!("\"{k}\":{v}"));
    }
    format!("{{{}}}", out.join(","))
}

const IDS: &[&str] = &[
    "0", "1", "-1", "2147483647", "-2147483648", "\"\"", "\"1\"", "\"-1\"", "\"a\\\"b\"", "\"é𝔘\"", "\"\\u0000\"",
];
const VALS: &[&str] = &[
    "null", "{}", "[]", "[null]", "\"\"", "0", "false", "-0.5", "18446744073709551615", "-9223372036854775808", "1e300",
    "{\"id\":1,\"method\":\"x\"}", "{\"result\":null,\"error\":{\"code\":1,\"message\":\"m\"}}", "{\"jsonrpc\":\"1.0\",\"type\":\"event\"}",
    "\"é\\u2028\\ud83d\\ude00\\r\\n\"", "[[[[{\"a\":{\"b\":[1,\"2\"]}}]]]]",
];
const NAMES: &[&str] = &["\"m\"", "\"\"", "\"a/b-c$\"", "\"é\"", "\"exit\""];

fn v(s: &str) -> Value {
    serde_json::from_str(s).unwrap()
}

/// Reads a message given as text, checks it against what was meant, writes
/// it, checks the text, and reads that again.
fn there_and_back(kind: Kind, text: &str, want: &Value, shape: &str) -> R {
    let bad = |sig: &str, msg: String| Err(Fail::new(format!("{shape}: {sig}"), format!("{text}: {msg}")));
    let data = format!("Content-Length: {}\r\n\r\n{text}", text.len());
    let m = match mccore::rt::quietly(|| kind.read(&mut data.as_bytes())) {
        Ok(Ok(Some(m))) => m,
        x => return bad("not read", format!("{x:?}")),
    };
    let got = match &m {
        Message::Lsp(sync_ls::lsp::Message::Request(_)) => "request",
        Message::Lsp(sync_ls::lsp::Message::Response(_)) => "response",
        Message::Lsp(sync_ls::lsp::Message::Notification(_)) => "notification",
        Message::Dap(sync_ls::dap::Message::Request(_)) => "request",
        Message::Dap(sync_ls::dap::Message::Response(_)) => "response",
        Message::Dap(sync_ls::dap::Message::Event(_)) => "event",
    };
    if got != shape {
        return bad("wrong kind", format!("read as a {got}"));
    }
    let fields = |m: &Message| -> Value {
        let opt = |x: &Option<Value>| x.clone().unwrap_or(json!("absent"));
        match m {
            Message::Lsp(sync_ls::lsp::Message::Request(r)) => json!([r.id, r.method, r.params]),
            Message::Lsp(sync_ls::lsp::Message::Response(r)) => json!([r.id, opt(&r.result), r.error.is_some(), r.error.as_ref().map(|e| json!([e.code, e.message, opt(&e.data)]))]),
            Message::Lsp(sync_ls::lsp::Message::Notification(r)) => json!([r.method, r.params]),
            Message::Dap(sync_ls::dap::Message::Request(r)) => json!([r.seq, r.command, r.arguments]),
            Message::Dap(sync_ls::dap::Message::Response(r)) => json!([r.request_seq, r.success, r.message, opt(&r.body)]),
            Message::Dap(sync_ls::dap::Message::Event(r)) => json!([r.seq, r.event, r.body]),
        }
    };
    let f = fields(&m);
    if &f != want {
        return bad("content", format!("expected {want}, read {f}"));
    }
    let mut out = vec![];
    if let Err(e) = m.write(&mut out) {
        return bad("not written", e.to_string());
    }
    let s = String::from_utf8(out.clone()).unwrap();
    let j: Value = v(s.split_once("\r\n\r\n").unwrap().1);
    // What was sent, without null parameters, with the version.
    let mut sent = v(text);
    let o = sent.as_object_mut().unwrap();
    o.remove("extra");
    for k in ["params", "arguments"] {
        if o.get(k) == Some(&Value::Null) {
            o.remove(k);
        }
    }
    if shape == "event" && o.get("body") == Some(&Value::Null) {
        o.remove("body");
    }
    o.insert("jsonrpc".into(), json!("2.0"));
    if j != sent {
        return bad("written form", format!("expected {sent}, wrote {j}"));
    }
    match kind.read(&mut &out[..]) {
        Ok(Some(m2)) if fields(&m2) == f => Ok(()),
        x => bad("second reading", format!("{x:?}")),
    }
}

fn variant(ch: &mut Chooser) -> R {
    let shape = ch.choose("shape", 7);
    // Field orders with small values, or all values in one order.
    let orders = ch.choose("orders", 2) == 1;
    let pick = |ch: &mut Chooser, l: &'static str, of: &'static [&'static str]| {
        if orders {
            of[of.len() / 2]
        } else {
            of[ch.choose(l, of.len())]
        }
    };
    let version = |ch: &mut Chooser, f: &mut Vec<(String, String)>| match ch.choose("version and extras", 3) {
        0 => f.push(("jsonrpc".into(), "\"2.0\"".into())),
        1 => {}
        _ => f.push(("extra".into(), "{\"id\":5}".into())),
    };
    let mut f: Vec<(String, String)> = vec![];
    let put = |f: &mut Vec<(String, String)>, k: &str, val: &str| f.push((k.into(), val.into()));
    let name = pick(ch, "name", NAMES);
    let val = pick(ch, "value", VALS);
    let (kind, shape, want) = match shape {
        0 | 1 => {
            let id = pick(ch, "id", IDS);
            put(&mut f, "id", id);
            put(&mut f, "method", name);
            if shape == 0 {
                put(&mut f, "params", val);
            }
            (Kind::Lsp, "request", json!([v(id), v(name), if shape == 0 { v(val) } else { Value::Null }]))
        }
        2 => {
            put(&mut f, "method", name);
            let has = ch.choose("params", 2) == 1;
            if has {
                put(&mut f, "params", val);
            }
            (Kind::Lsp, "notification", json!([v(name), if has { v(val) } else { Value::Null }]))
        }
        3 => {
            let id = pick(ch, "id", IDS);
            put(&mut f, "id", id);
            if ch.choose("outcome", 2) == 0 {
                put(&mut f, "result", val);
                (Kind::Lsp, "response", json!([v(id), v(val), false, null]))
            } else {
                let code = *[0, -32700, i32::MAX, i32::MIN].get(ch.choose("code", 4)).unwrap();
                let data = ch.choose("data", 2) == 1 && val != "null";
                let e = if data {
                    format!("{{\"code\":{code},\"message\":{name},\"data\":{val}}}")
                } else {
                    format!("{{\"code\":{code},\"message\":{name}}}")
                };
                put(&mut f, "error", &e);
                let d = if data { v(val) } else { json!("absent") };
                (Kind::Lsp, "response", json!([v(id), "absent", true, [code, v(name), d]]))
            }
        }
        _ => {
            let seqs = ["0", "1", "-1", "2147483648", "9223372036854775807", "-9223372036854775808"];
            let seq = seqs[ch.choose("seq", seqs.len())];
            let has = ch.choose("body", 2) == 1;
            let (t, k, b) = match shape {
                4 => ("request", "command", "arguments"),
                5 => ("event", "event", "body"),
                _ => ("response", "message", "body"),
            };
            put(&mut f, "type", &format!("\"{t}\""));
            put(&mut f, if t == "response" { "request_seq" } else { "seq" }, seq);
            put(&mut f, k, name);
            if has && !(t == "response" && val == "null") {
                put(&mut f, b, val);
            }
            let body = if has { v(val) } else { Value::Null };
            if t == "response" {
                let ok = ch.choose("success", 2) == 1;
                put(&mut f, "success", &ok.to_string());
                let body = if body.is_null() { json!("absent") } else { body };
                (Kind::Dap, t, json!([v(seq), ok, v(name), body]))
            } else {
                (Kind::Dap, t, json!([v(seq), v(name), body]))
            }
        }
    };
    version(ch, &mut f);
    let text = if orders {
        permuted(ch, f)
    } else {
        format!("{{{}}}", f.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","))
    };
    ch.note(|| text.clone());
    ch.observe(&text);
    there_and_back(kind, &text, &want, shape)
}

pub fn content(ctx: &mut Ctx) {
    ctx.explore(
        "messages",
        "inputs",
        &format!("all messages of both protocols over {} ids, {} names and {} values (absent, null, confusable with messages, extreme numbers, escapes), and all orders of their fields with and without the version and extra fields", IDS.len(), NAMES.len(), VALS.len()),
        0,
        variant,
    );
    // Made by the constructors instead of read.
    use sync_ls::lsp::{Notification, Request, Response};
    use sync_ls::RequestId;
    let n = IDS.len() * VALS.len() * NAMES.len();
    ctx.inputs("constructors", "all requests, notifications and responses made by the constructors from the same ids, names and values, their extraction under the right and the wrong method and as the right and the wrong type", n as u64, |i, obs| {
        let i = i as usize;
        let (id, val, name) = (v(IDS[i % IDS.len()]), v(VALS[i / IDS.len() % VALS.len()]), v(NAMES[i / IDS.len() / VALS.len()]));
        let name = name.as_str().unwrap().to_owned();
        obs.outcome(i);
        obs.nontrivial();
        obs.sample(|| format!("{id} {name:?} {val}"));
        let rid: RequestId = match id.as_i64() {
            Some(n) => RequestId::from(n as i32),
            None => RequestId::from(id.as_str().unwrap().to_owned()),
        };
        let chk = |m: Message, mut want: Value, what: &str| {
            let o = want.as_object_mut().unwrap();
            o.insert("jsonrpc".into(), json!("2.0"));
            if o.get("params") == Some(&Value::Null) {
                o.remove("params");
            }
            let got = wire(m);
            if got != want {
                return Err(Fail::new(format!("{what}: written form"), format!("expected {want}, wrote {got}")));
            }
            Ok(())
        };
        chk(Request::new(rid.clone(), name.clone(), &val).into(), json!({"id": id, "method": name, "params": val}), "request")?;
        chk(Notification::new(name.clone(), &val).into(), json!({"method": name, "params": val}), "notification")?;
        chk(Response::new_ok(rid.clone(), &val).into(), json!({"id": id, "result": val}), "response")?;
        chk(Response::new_err(rid.clone(), -5, name.clone()).into(), json!({"id": id, "error": {"code": -5, "message": name}}), "error response")?;
        // Extraction.
        let r = Request::new(rid.clone(), name.clone(), &val);
        match r.clone().extract::<Value>(&name) {
            Ok((i2, p)) if i2 == rid && p == val => {}
            x => return Err(Fail::new("extraction of a request", format!("{x:?}"))),
        }
        match r.clone().extract::<Value>(&format!("{name}x")) {
            Err(sync_ls::ExtractError::MethodMismatch(r2)) if r2.id == rid && r2.params == val && r2.method == name => {}
            x => return Err(Fail::new("extraction of a request of another method", format!("{x:?}"))),
        }
        match (r.extract::<Vec<Option<u8>>>(&name), serde_json::from_value::<Vec<Option<u8>>>(val.clone())) {
            (Ok((i2, a)), Ok(b)) if a == b && i2 == rid => {}
            (Err(sync_ls::ExtractError::JsonError { method, .. }), Err(_)) if method == name => {}
            x => return Err(Fail::new("typed extraction of a request", format!("{x:?}"))),
        }
        let r = Notification::new(name.clone(), &val);
        match r.clone().extract::<Value>(&name) {
            Ok(p) if p == val => {}
            x => return Err(Fail::new("extraction of a notification", format!("{x:?}"))),
        }
        match r.clone().extract::<Value>(&format!("{name}x")) {
            Err(sync_ls::ExtractError::MethodMismatch(r2)) if r2.params == val && r2.method == name => {}
            x => return Err(Fail::new("extraction of a notification of another method", format!("{x:?}"))),
        }
        match (r.extract::<Vec<Option<u8>>>(&name), serde_json::from_value::<Vec<Option<u8>>>(val.clone())) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(sync_ls::ExtractError::JsonError { method, .. }), Err(_)) if method == name => {}
            x => return Err(Fail::new("typed extraction of a notification", format!("{x:?}"))),
        }
        Ok(())
    });
    let k = IDS.len();
    ctx.inputs("ids", "all pairs of ids: equal, equally hashed and equally shown only when they are the same, also after a round trip", (k * k) as u64, |i, obs| {
        let (a, b) = (IDS[i as usize % k], IDS[i as usize / k]);
        let (x, y): (RequestId, RequestId) = (serde_json::from_str(a).unwrap(), serde_json::from_str(b).unwrap());
        obs.outcome(i);
        obs.nontrivial();
        obs.sample(|| format!("{a} and {b}"));
        if serde_json::to_value(&x).unwrap() != v(a) {
            return Err(Fail::new("id changes", a));
        }
        let same = v(a) == v(b);
        let mut map = std::collections::HashMap::new();
        map.insert(x.clone(), 1);
        if (x == y) != same || map.contains_key(&y) != same || (x.to_string() == y.to_string()) != same {
            return Err(Fail::new("ids confused", format!("{a} and {b}: same {same}, equal {}, shown {x} and {y}", x == y)));
        }
        Ok(())
    });
}
