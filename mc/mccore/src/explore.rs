//! Exhaustive enumeration of choice trees.

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// One decision of an execution.
#[derive(Clone, Debug)]
pub struct Point {
    pub label: &'static str,
    pub chosen: usize,
    /// Cost of every alternative at this point (deviations from the default).
    pub costs: Vec<u8>,
    /// Deviations used before this point.
    pub used: u32,
}

/// Answers the decisions of one execution: first the recorded prefix, then
/// always alternative 0.
#[derive(Debug)]
pub struct Chooser {
    prefix: Vec<usize>,
    pub points: Vec<Point>,
    pub used: u32,
    pub bound: u32,
    pub diverged: Option<String>,
    /// Free-form log, put into the replay artefact.
    pub log: Vec<String>,
    pub logging: bool,
    outcome: std::collections::hash_map::DefaultHasher,
}

impl Chooser {
    pub fn new(prefix: Vec<usize>, bound: u32) -> Self {
        Chooser {
            prefix,
            points: vec![],
            used: 0,
            bound,
            diverged: None,
            log: vec![],
            logging: false,
            outcome: Default::default(),
        }
    }

    /// Chooses one of `n` alternatives, all of which are free.
    pub fn choose(&mut self, label: &'static str, n: usize) -> usize {
        assert!(n > 0, "no alternative at {label}");
        if n == 1 {
            return 0;
        }
        self.choose_costed(label, &vec![0; n])
    }

    /// Picks an item of a slice.
    pub fn pick<'a, T>(&mut self, label: &'static str, items: &'a [T]) -> &'a T {
        let i = self.choose(label, items.len());
        &items[i]
    }

    /// A default answer against `n - 1` deviations that cost one each.
    pub fn deviate(&mut self, label: &'static str, n: usize) -> usize {
        let mut costs = vec![1u8; n];
        costs[0] = 0;
        self.choose_costed(label, &costs)
    }

    /// Chooses among alternatives with costs; the first must be free.
    pub fn choose_costed(&mut self, label: &'static str, costs: &[u8]) -> usize {
        crate::watch::beat();
        let at = self.points.len();
        let chosen = if at < self.prefix.len() {
            let c = self.prefix[at];
            if c >= costs.len() {
                self.diverged = Some(format!(
                    "choice {at} ({label}): recorded alternative {c} of {}",
                    costs.len()
                ));
                0
            } else {
                c
            }
        } else {
            0
        };
        self.points.push(Point {
            label,
            chosen,
            costs: costs.to_vec(),
            used: self.used,
        });
        self.used += costs[chosen] as u32;
        chosen
    }

    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.logging {
            let s = s();
            self.log.push(s);
        }
    }

    /// Mixes an observation into the outcome fingerprint of this execution.
    pub fn observe(&mut self, v: impl Hash) {
        v.hash(&mut self.outcome);
    }

    /// The recorded answers that are still to be given.
    pub fn planned(&self) -> &[usize] {
        self.prefix.get(self.points.len()..).unwrap_or(&[])
    }

    pub fn choices(&self) -> Vec<usize> {
        self.points.iter().map(|p| p.chosen).collect()
    }
}

/// A property failure of one execution.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Identifies the failing input, call site or history; matched against the
    /// known findings.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}

impl<S: Into<String>> From<S> for Fail {
    fn from(s: S) -> Self {
        let msg = s.into();
        Fail {
            sig: msg.lines().next().unwrap_or("").to_owned(),
            msg,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    /// The number of deviations (preemptions, faults, ...) per execution.
    pub bound: u32,
    pub max_execs: u64,
    pub max_wall: Duration,
    pub workers: usize,
    /// Stop after that many distinct failure signatures.
    pub max_fails: usize,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            bound: 2,
            max_execs: u64::MAX,
            max_wall: Duration::from_secs(600),
            workers: std::thread::available_parallelism().map_or(4, |n| n.get()),
            max_fails: 8,
        }
    }
}

#[derive(Debug, Default, Clone)]
pub struct Stats {
    pub executions: u64,
    /// Decision nodes visited for the first time.
    pub states: u64,
    /// Edges taken for the first time.
    pub transitions: u64,
    pub distinct_outcomes: usize,
    pub max_depth: usize,
    /// True if the whole bounded tree was explored.
    pub exhausted: bool,
    pub cap: Option<String>,
    pub samples: Vec<String>,
    pub wall: f64,
}

pub struct Failure {
    pub fail: Fail,
    pub choices: Vec<usize>,
    pub log: Vec<String>,
}

extern "C" {
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
}

/// Binds the calling thread, and those it starts, to the `k`th usable core.
fn pin(k: usize) {
    let mut mask = [0u64; 16];
    let cores: Vec<usize> = unsafe {
        if sched_getaffinity(0, 128, mask.as_mut_ptr()) <= 0 {
            return;
        }
        (0..1024).filter(|i| mask[i / 64] >> (i % 64) & 1 == 1).collect()
    };
    if cores.is_empty() {
        return;
    }
    let c = cores[k % cores.len()];
    let mut one = [0u64; 16];
    one[c / 64] = 1 << (c % 64);
    // A refusal costs time only.
    unsafe { sched_setaffinity(0, 128, one.as_ptr()) };
}

struct Shared {
    stack: Vec<(Vec<usize>, usize)>,
    active: usize,
}

/// One execution; a panic outside of model threads is a failure of it.
pub fn call<F>(f: &F, ch: &mut Chooser) -> Result<(), Fail>
where
    F: Fn(&mut Chooser) -> Result<(), Fail>,
{
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ch))).unwrap_or_else(|p| {
        let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
        Err(Fail::new("the code panics", msg.unwrap_or_default()))
    })
}

/// Runs `f` on every execution within the bound.
pub fn explore<F>(cfg: &Config, f: F) -> (Stats, Vec<Failure>, Option<String>)
where
    F: Fn(&mut Chooser) -> Result<(), Fail> + Sync,
{
    let start = Instant::now();
    // (prefix, number of leading choices that were already visited as nodes)
    let shared = Mutex::new(Shared {
        stack: vec![(vec![], 0)],
        active: 0,
    });
    let cv = Condvar::new();
    let execs = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let outcomes = Mutex::new(HashSet::new());
    let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let error: Mutex<Option<String>> = Mutex::new(None);

    let worker = &|| {
        loop {
            let mut work = {
                let mut s = shared.lock().unwrap();
                loop {
                    if stop.load(Ordering::SeqCst) {
                        return;
                    }
                    if !s.stack.is_empty() {
                        // Hand out small batches to keep the lock cold.
                        s.active += 1;
                        let n = (s.stack.len() / (cfg.workers * 2)).clamp(1, 64);
                        let at = s.stack.len() - n;
                        break s.stack.split_off(at);
                    }
                    if s.active == 0 {
                        cv.notify_all();
                        return;
                    }
                    s = cv.wait(s).unwrap();
                }
            };
            let mut local = Stats::default();
            let mut local_out = HashSet::new();
            let mut rounds = 0;
            // Works on a batch depth first, then gives the remainder back.
            while let Some((prefix, visited)) = work.pop() {
                let n = execs.fetch_add(1, Ordering::SeqCst);
                if n >= cfg.max_execs || start.elapsed() > cfg.max_wall {
                    let mut st = stats.lock().unwrap();
                    st.cap = Some(if n >= cfg.max_execs {
                        format!("{} executions", cfg.max_execs)
                    } else {
                        format!("{:?} wall time", cfg.max_wall)
                    });
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
                let depth0 = prefix.len();
                let mut ch = Chooser::new(prefix, cfg.bound);
                let res = crate::watch::observed(&ch.prefix.clone(), || call(&f, &mut ch));
                local.executions += 1;
                if let Some(d) = &ch.diverged {
                    *error.lock().unwrap() = Some(format!("replay diverged: {d}"));
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
                if ch.points.len() < depth0 {
                    *error.lock().unwrap() =
                        Some(format!("replay diverged: {} of {depth0} choices: {:?}, {res:?}", ch.points.len(), ch.prefix));
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
                local.max_depth = local.max_depth.max(ch.points.len());
                local.states += (ch.points.len() - visited) as u64 + 1;
                local.transitions += (ch.points.len() - visited) as u64 + u64::from(visited > 0);
                local_out.insert(ch.outcome.finish());
                if let Err(fail) = res {
                    let mut fs = fails.lock().unwrap();
                    if !fs.iter().any(|x| x.fail.sig == fail.sig) {
                        // Run it again, for the log and to see that it repeats.
                        let mut again = Chooser::new(ch.choices(), cfg.bound);
                        again.logging = true;
                        let r2 = call(&f, &mut again);
                        match r2 {
                            Err(f2) if f2.sig == fail.sig => fs.push(Failure {
                                fail: f2,
                                choices: ch.choices(),
                                log: again.log,
                            }),
                            other => {
                                *error.lock().unwrap() = Some(format!(
                                    "failure does not repeat: first {fail:?}, then {other:?}"
                                ));
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        if fs.len() >= cfg.max_fails {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
                let choices = ch.choices();
                for i in depth0..ch.points.len() {
                    let p = &ch.points[i];
                    for alt in (0..p.costs.len()).rev() {
                        if alt == p.chosen || p.used + p.costs[alt] as u32 > cfg.bound {
                            continue;
                        }
                        let mut c = choices[..i].to_vec();
                        c.push(alt);
                        work.push((c, i + 1));
                    }
                }
                rounds += 1;
                if stop.load(Ordering::SeqCst) || (rounds % 16 == 0 && work.len() > 1) {
                    break;
                }
            }
            {
                let mut st = stats.lock().unwrap();
                st.executions += local.executions;
                st.states += local.states;
                st.transitions += local.transitions;
                st.max_depth = st.max_depth.max(local.max_depth);
                outcomes.lock().unwrap().extend(local_out);
            }
            let mut s = shared.lock().unwrap();
            s.active -= 1;
            s.stack.append(&mut work);
            drop(s);
            cv.notify_all();
        }
    };

    if cfg.workers <= 1 {
        worker();
    } else {
        std::thread::scope(|sc| {
            for k in 0..cfg.workers {
                sc.spawn(move || {
                    // The model threads of an execution run one at a time:
                    // on one core, they hand over much faster.
                    pin(k);
                    worker()
                });
            }
        });
    }

    let mut st = stats.into_inner().unwrap();
    let left = shared.into_inner().unwrap().stack.len();
    st.exhausted = left == 0 && !stop.load(Ordering::SeqCst);
    st.distinct_outcomes = outcomes.into_inner().unwrap().len();
    st.wall = start.elapsed().as_secs_f64();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    (st, fails, error.into_inner().unwrap())
}
