//! Notices executions that do not end.
//!
//! An execution that computes for more than [`LIMIT`] seconds without reaching
//! a decision or a scheduling point is a failure of its own: the code under
//! test does not terminate. So is one that waits, without anybody who could
//! end that (see [`alone`]). One that waits for something the explorer does
//! not control says nothing; the process gives up.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

/// CPU seconds.
const LIMIT: u64 = 40;
/// Seconds in which a thread sleeps without having computed anything.
const WAIT: u64 = 40;

static ALONE: AtomicBool = AtomicBool::new(false);

/// Executions use nothing but their own thread: one that sleeps waits for
/// itself.
pub fn alone() {
    ALONE.store(true, Ordering::SeqCst);
}

pub struct Watch {
    beat: AtomicU64,
    busy: AtomicBool,
    tid: i32,
    /// The decisions of the execution, for the replay file.
    what: Mutex<Vec<usize>>,
}

static ALL: Mutex<Vec<Arc<Watch>>> = Mutex::new(vec![]);
static START: Once = Once::new();

type Report = Box<dyn Fn(Vec<usize>, String) + Send>;
static REPORT: Mutex<Option<Report>> = Mutex::new(None);

thread_local! {
    static MINE: Arc<Watch> = {
        let w = Arc::new(Watch {
            beat: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            tid: unsafe { gettid() },
            what: Mutex::new(vec![]),
        });
        ALL.lock().unwrap_or_else(|e| e.into_inner()).push(w.clone());
        START.call_once(|| {
            std::thread::spawn(monitor);
        });
        w
    };
}

extern "C" {
    fn gettid() -> i32;
}

/// Tells how a part reports an execution that does not end, and leaves.
pub fn on_hang(f: Option<Report>) {
    *REPORT.lock().unwrap_or_else(|e| e.into_inner()) = f;
}

/// Progress of the calling thread's execution.
pub fn beat() {
    let _ = MINE.try_with(|w| w.beat.fetch_add(1, Ordering::Relaxed));
}

/// Runs one execution under observation.
pub fn observed<T>(choices: &[usize], f: impl FnOnce() -> T) -> T {
    MINE.with(|w| {
        let mut what = w.what.lock().unwrap_or_else(|e| e.into_inner());
        what.clear();
        what.extend_from_slice(choices);
        drop(what);
        w.beat.fetch_add(1, Ordering::Relaxed);
        w.busy.store(true, Ordering::SeqCst);
    });
    let r = f();
    MINE.with(|w| w.busy.store(false, Ordering::SeqCst));
    r
}

/// Ticks of computing time of a thread of this process, and whether it sleeps.
fn cpu(tid: i32) -> Option<(u64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some((t, f.first() == Some(&"S")))
}

fn monitor() {
    // Per thread: the beat last seen, since when, and the computing time then.
    let mut seen: std::collections::HashMap<i32, (u64, Instant, u64)> = Default::default();
    // Per thread: the computing time when it was first seen sleeping, and the
    // number of times since.
    let mut asleep: std::collections::HashMap<i32, (u64, u64)> = Default::default();
    loop {
        std::thread::sleep(Duration::from_secs(2));
        let all = ALL.lock().unwrap_or_else(|e| e.into_inner()).clone();
        for w in &all {
            let b = w.beat.load(Ordering::Relaxed);
            let Some((ticks, sleeps)) = cpu(w.tid) else { continue };
            let c = ticks / 100;
            let e = seen.entry(w.tid).or_insert((b, Instant::now(), c));
            if !w.busy.load(Ordering::SeqCst) || e.0 != b {
                *e = (b, Instant::now(), c);
                asleep.remove(&w.tid);
                continue;
            }
            let a = asleep.entry(w.tid).or_insert((ticks, 0));
            *a = if sleeps && a.0 == ticks { (ticks, a.1 + 1) } else { (ticks, 0) };
            if a.1 >= WAIT / 2 && ALONE.load(Ordering::SeqCst) {
                let what = w.what.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let r = REPORT.lock().unwrap_or_else(|e| e.into_inner()).take();
                if let Some(r) = r {
                    r(what, "an execution waits for ever (a deadlock with itself)".into());
                }
                std::process::exit(3);
            }
            if c.saturating_sub(e.2) >= LIMIT {
                let what = w.what.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let r = REPORT.lock().unwrap_or_else(|e| e.into_inner()).take();
                if let Some(r) = r {
                    r(what, format!("an execution computes for {LIMIT} s without an end"));
                }
                std::process::exit(3);
            }
            if e.1.elapsed() > Duration::from_secs(150) && c.saturating_sub(e.2) < 2 {
                eprintln!("mccore: an execution waits for something the explorer does not control");
                std::process::exit(3);
            }
        }
    }
}
