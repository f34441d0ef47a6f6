//! The client's side of a session: an input and an output in memory, whose
//! every access is a scheduling point.

use std::io::{self, BufRead, Read, Write};
use std::sync::{Arc, Mutex};

use mccore::rt;
use serde_json::{json, Value};

#[derive(Clone)]
pub enum Step {
    /// Bytes that arrive at once.
    Send(Vec<u8>),
    /// Waits for so many messages on the output.
    Wait(usize),
    /// Waits for so many entries in the server's log.
    WaitLog(usize),
    /// Waits for so many requests of the server and replies to those that
    /// were not replied to, the latest first if so wanted.
    Reply(usize, bool),
    /// The input fails.
    Fail(io::ErrorKind),
}

#[derive(Default)]
pub struct Shared {
    /// Flushed output.
    pub out: Vec<u8>,
    /// Written but not flushed.
    pub staged: Vec<u8>,
    pub log: Vec<String>,
    /// What the server took from the input.
    pub consumed: Vec<u8>,
    pub input_over: bool,
    pub replied: usize,
    pub writes: usize,
    pub out_dropped: bool,
    /// The output has failed.
    pub failed: bool,
    /// A flush was interrupted.
    pub flush_interrupted: bool,
}

#[derive(Clone, Default)]
pub struct World(pub Arc<Mutex<Shared>>);

impl World {
    pub fn lock(&self) -> std::sync::MutexGuard<'_, Shared> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn log(&self, s: impl Into<String>) {
        self.lock().log.push(s.into());
    }
}

/// Splits an output into the messages in it; fails on anything else.
pub fn frames(data: &[u8]) -> Result<Vec<Value>, String> {
    let mut at = 0;
    let mut out = vec![];
    while at < data.len() {
        let rest = &data[at..];
        let Some(h) = rest.windows(4).position(|w| w == b"\r\n\r\n") else {
            return Err(format!("no complete header at {at}: {:?}", String::from_utf8_lossy(rest)));
        };
        let head = String::from_utf8_lossy(&rest[..h]).to_string();
        let Some(n) = head.strip_prefix("Content-Length: ").and_then(|n| n.parse::<usize>().ok()) else {
            return Err(format!("bad header {head:?}"));
        };
        if rest.len() < h + 4 + n {
            return Err(format!("incomplete body: {:?}", String::from_utf8_lossy(rest)));
        }
        match serde_json::from_slice(&rest[h + 4..h + 4 + n]) {
            Ok(v) => out.push(v),
            Err(e) => return Err(format!("bad body: {e}")),
        }
        at += h + 4 + n;
    }
    Ok(out)
}

pub fn frame(v: &Value) -> Vec<u8> {
    let t = v.to_string();
    format!("Content-Length: {}\r\n\r\n{t}", t.len()).into_bytes()
}

pub struct Input {
    pub world: World,
    pub steps: Vec<Step>,
    pub chunk: Vec<u8>,
    pub at: usize,
    /// Pieces of this size; 0 for whole chunks.
    pub piece: usize,
    pub next: usize,
}

impl Input {
    pub fn new(world: World, steps: Vec<Step>, piece: usize) -> Input {
        Input { world, steps, chunk: vec![], at: 0, piece, next: 0 }
    }
}

fn asks(out: &[u8]) -> Vec<Value> {
    frames(out).unwrap_or_default().into_iter().filter(|m| m.get("method").is_some() && m.get("id").is_some()).collect()
}

impl BufRead for Input {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        while self.at == self.chunk.len() {
            let Some(s) = self.steps.get(self.next).cloned() else {
                self.world.lock().input_over = true;
                return Ok(&[]);
            };
            self.next += 1;
            let w = self.world.clone();
            match s {
                Step::Send(b) => {
                    rt::point("input");
                    self.chunk = b;
                    self.at = 0;
                }
                Step::Wait(n) => rt::block("client waits for messages", move || {
                    frames(&w.lock().out).is_ok_and(|f| f.len() >= n)
                }),
                Step::WaitLog(n) => rt::block("client waits for the server", move || w.lock().log.len() >= n),
                Step::Reply(n, rev) => {
                    let w2 = w.clone();
                    rt::block("client waits for requests", move || asks(&w2.lock().out).len() >= n);
                    let mut s = w.lock();
                    let all = asks(&s.out);
                    let mut todo: Vec<Value> = all[s.replied.min(all.len())..].to_vec();
                    s.replied = all.len();
                    drop(s);
                    if rev {
                        todo.reverse();
                    }
                    self.chunk = todo
                        .iter()
                        .flat_map(|a| frame(&json!({"jsonrpc": "2.0", "id": a["id"], "result": a["params"]["tag"]})))
                        .collect();
                    self.at = 0;
                }
                Step::Fail(kind) => {
                    // It stays broken.
                    self.next -= 1;
                    return Err(io::Error::new(kind, "broken input"));
                }
            }
        }
        let end = if self.piece == 0 { self.chunk.len() } else { (self.at + self.piece).min(self.chunk.len()) };
        Ok(&self.chunk[self.at..end])
    }
    fn consume(&mut self, n: usize) {
        let part = self.chunk[self.at..self.at + n].to_vec();
        self.world.lock().consumed.extend(part);
        self.at += n;
    }
}

impl Read for Input {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

#[derive(Default)]
pub struct Output {
    pub world: World,
    /// Fails at this write or flush (counted together).
    pub fail_at: Option<usize>,
    pub kind: Option<io::ErrorKind>,
    /// Takes so many bytes per write; 0 for all.
    pub short: usize,
    /// Is interrupted at this write or flush.
    pub interrupted_at: Option<usize>,
}

impl Output {
    fn step(&mut self) -> io::Result<()> {
        let mut w = self.world.lock();
        w.writes += 1;
        if self.interrupted_at == Some(w.writes) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.fail_at.is_some_and(|f| w.writes >= f) {
            w.failed = true;
            return Err(io::Error::new(self.kind.unwrap_or(io::ErrorKind::Other), "broken output"));
        }
        Ok(())
    }
}

impl Drop for Output {
    fn drop(&mut self) {
        self.world.lock().out_dropped = true;
    }
}

impl Write for Output {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.step()?;
        let n = if self.short == 0 { buf.len() } else { buf.len().min(self.short) };
        self.world.lock().staged.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        rt::point("flush");
        if let Err(e) = self.step() {
            if e.kind() == io::ErrorKind::Interrupted {
                self.world.lock().flush_interrupted = true;
            }
            return Err(e);
        }
        let mut w = self.world.lock();
        let s = std::mem::take(&mut w.staged);
        w.out.extend(s);
        Ok(())
    }
}
