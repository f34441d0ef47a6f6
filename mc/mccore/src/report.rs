//! Runs the parts of a check and writes what they covered and found as one
//! JSON document; `/verif/check` merges these into evidence and verdicts.

use std::hash::Hasher;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::explore::{explore, Chooser, Config, Fail, Failure, Stats};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    replay: Option<Value>,
    parts: Vec<Value>,
    out: String,
    start: Instant,
    budget: Duration,
    only: Option<String>,
}

/// The result of one part, for checks that want to look at it.
pub struct Part {
    pub stats: Stats,
    pub failed: bool,
}

/// Collects outcomes of a flat enumeration.
pub struct Obs {
    hash: u64,
    nontrivial: bool,
    sample: Option<String>,
    want_sample: bool,
}

impl Obs {
    pub fn outcome(&mut self, v: impl std::hash::Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write_u64(self.hash);
        v.hash(&mut h);
        self.hash = h.finish();
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Picks a bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    fn skip(&self, name: &str) -> bool {
        if let Some(r) = &self.replay {
            return r["part"] != name;
        }
        self.only.as_ref().is_some_and(|o| o != name)
    }

    /// Writes a report in which this part fails because it does not end.
    fn on_hang(&self, name: &str, kind: &str, what: &str) {
        let (parts, out, property) = (self.parts.clone(), self.out.clone(), self.property.clone());
        let (name, kind, what) = (name.to_string(), kind.to_string(), what.to_string());
        crate::watch::on_hang(Some(Box::new(move |choices, msg| {
            let mut parts = parts.clone();
            eprintln!("[{property}] {name}: {msg}");
            parts.push(json!({
                "part": name, "kind": kind, "what": what, "deviation_bound": 0, "executions": 1, "states": 1,
                "transitions": 1, "distinct_outcomes": 1, "max_depth": 0, "exhausted": false,
                "cap": "an execution that does not end", "samples": [], "wall_s": 0.0, "error": null,
                "failures": [{"sig": "does not terminate", "msg": msg, "choices": choices, "log": []}],
            }));
            let doc = json!({ "property": property, "parts": parts });
            let _ = std::fs::write(&out, doc.to_string());
            std::process::exit(0);
        })));
    }

    fn left(&self) -> Duration {
        self.budget.saturating_sub(self.start.elapsed())
    }

    /// Explores a choice tree. `kind` is `schedules`, `histories`, `inputs`,
    /// `faults` or `crash_points`.
    pub fn explore<F>(&mut self, name: &str, kind: &str, what: &str, bound: u32, f: F) -> Part
    where
        F: Fn(&mut Chooser) -> Result<(), Fail> + Sync,
    {
        self.explore_with(name, kind, what, Config { bound, ..Config::default() }, f)
    }

    pub fn explore_with<F>(
        &mut self,
        name: &str,
        kind: &str,
        what: &str,
        mut cfg: Config,
        f: F,
    ) -> Part
    where
        F: Fn(&mut Chooser) -> Result<(), Fail> + Sync,
    {
        if self.skip(name) {
            return Part { stats: Stats::default(), failed: false };
        }
        if let Some(r) = &self.replay {
            let choices: Vec<usize> = r["choices"]
                .as_array()
                .map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect())
                .unwrap_or_default();
            let mut ch = Chooser::new(choices, cfg.bound);
            ch.logging = true;
            crate::rt::preempt_holders(r["holders"] == true);
            let res = f(&mut ch);
            for l in &ch.log {
                println!("  {l}");
            }
            println!("replay of {name}: {res:?}");
            let fails = match res {
                Ok(()) => vec![],
                Err(fail) => vec![Failure { fail, choices: ch.choices(), log: ch.log.clone() }],
            };
            return self.push(name, kind, what, cfg.bound, Stats::default(), fails, None);
        }
        cfg.max_wall = cfg.max_wall.min(self.left());
        self.on_hang(name, kind, what);
        // Sees that the harness owns every choice: one schedule, run twice.
        let sample = |choices: Vec<usize>| {
            let mut ch = Chooser::new(choices, cfg.bound);
            ch.logging = true;
            let r = crate::watch::observed(&ch.choices(), || crate::explore::call(&f, &mut ch));
            (
                ch.points.iter().map(|p| (p.label, p.chosen, p.costs.len())).collect::<Vec<_>>(),
                format!("{r:?}"),
                ch.log,
            )
        };
        let (a, b) = (sample(vec![]), sample(vec![]));
        let mut error = None;
        if a.0 != b.0 || a.1 != b.1 || a.2 != b.2 {
            let at = a.2.iter().zip(&b.2).position(|(x, y)| x != y);
            error = Some(format!(
                "the default execution does not repeat itself (log line {at:?}: {:?} / {:?}; {} / {})",
                at.map(|i| &a.2[i]),
                at.map(|i| &b.2[i]),
                a.1,
                b.1
            ));
        }
        let (mut stats, mut fails, mut err) = explore(&cfg, &f);
        if crate::rt::holding().1 && fails.is_empty() && err.is_none() {
            crate::rt::preempt_holders(true);
            cfg.max_wall = cfg.max_wall.min(self.left());
            (stats, fails, err) = explore(&cfg, &f);
        }
        let mut s = a.2;
        s.truncate(12);
        stats.samples.push(format!("default execution: {}", s.join(" | ")));
        self.push(name, kind, what, cfg.bound, stats, fails, error.or(err))
    }

    /// Evaluates `f` on the numbers below `n`, each of which stands for one
    /// input of the stated domain.
    pub fn inputs<F>(&mut self, name: &str, what: &str, n: u64, f: F) -> Part
    where
        F: Fn(u64, &mut Obs) -> Result<(), Fail> + Sync,
    {
        if self.skip(name) {
            return Part { stats: Stats::default(), failed: false };
        }
        if let Some(r) = &self.replay {
            let i = r["choices"][0].as_u64().unwrap_or(0);
            let mut o = Obs { hash: 0, nontrivial: false, sample: None, want_sample: true };
            let res = f(i, &mut o);
            println!("replay of {name}: {:?} {res:?}", o.sample);
            let fails = match res {
                Ok(()) => vec![],
                Err(fail) => vec![Failure { fail, choices: vec![i as usize], log: vec![] }],
            };
            return self.push(name, "inputs", what, 0, Stats::default(), fails, None);
        }
        self.on_hang(name, "inputs", what);
        let t = Instant::now();
        let left = self.left();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
        let error: Mutex<Option<String>> = Mutex::new(None);
        let outcomes = Mutex::new(std::collections::HashSet::new());
        let samples = Mutex::new(vec![]);
        let done = AtomicU64::new(0);
        let nontrivial = AtomicU64::new(0);
        let workers = std::thread::available_parallelism().map_or(4, |n| n.get());
        let chunk = (n / (workers as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for _ in 0..workers {
                sc.spawn(|| {
                    let mut outs = std::collections::HashSet::new();
                    loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= n || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t.elapsed() > left {
                            capped.store(true, Ordering::SeqCst);
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            let want = i < 3 || i % (n / 5 + 1) == n / 7;
                            let mut o =
                                Obs { hash: 0, nontrivial: false, sample: None, want_sample: want };
                            let res = crate::watch::observed(&[i as usize], || f(i, &mut o));
                            done.fetch_add(1, Ordering::Relaxed);
                            if o.nontrivial {
                                nontrivial.fetch_add(1, Ordering::Relaxed);
                            }
                            if outs.len() < 1 << 20 {
                                outs.insert(o.hash);
                            }
                            if let Some(s) = o.sample {
                                let mut v = samples.lock().unwrap();
                                if v.len() < 10 {
                                    v.push(s);
                                }
                            }
                            if let Err(fail) = res {
                                let mut fs = fails.lock().unwrap();
                                if !fs.iter().any(|x| x.fail.sig == fail.sig) {
                                    let mut o = Obs {
                                        hash: 0,
                                        nontrivial: false,
                                        sample: None,
                                        want_sample: false,
                                    };
                                    match f(i, &mut o) {
                                        Err(f2) if f2.sig == fail.sig => fs.push(Failure {
                                            fail,
                                            choices: vec![i as usize],
                                            log: vec![],
                                        }),
                                        other => {
                                            *error.lock().unwrap() = Some(format!(
                                                "failure does not repeat: {fail:?}, {other:?}"
                                            ));
                                            stop.store(true, Ordering::SeqCst);
                                        }
                                    }
                                    if fs.len() >= 16 {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                    }
                    outcomes.lock().unwrap().extend(outs);
                });
            }
        });
        let done = done.into_inner();
        let stats = Stats {
            executions: done,
            states: done,
            transitions: done,
            distinct_outcomes: outcomes.into_inner().unwrap().len(),
            max_depth: 1,
            exhausted: done == n,
            cap: capped.into_inner().then(|| "wall time".to_string()),
            samples: samples.into_inner().unwrap(),
            wall: t.elapsed().as_secs_f64(),
        };
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|f| f.choices.clone());
        self.push(name, "inputs", what, 0, stats, fails, error.into_inner().unwrap())
    }

    /// Reports a part that a check ran by its own means.
    pub fn push(
        &mut self,
        name: &str,
        kind: &str,
        what: &str,
        bound: u32,
        stats: Stats,
        fails: Vec<Failure>,
        error: Option<String>,
    ) -> Part {
        eprintln!(
            "[{}] {name}: {} executions, {} states, {} transitions, {} outcomes, depth {}, {:.1} s{}{}{}",
            self.property,
            stats.executions,
            stats.states,
            stats.transitions,
            stats.distinct_outcomes,
            stats.max_depth,
            stats.wall,
            if stats.exhausted { ", exhausted" } else { ", NOT exhausted" },
            if fails.is_empty() { String::new() } else { format!(", {} FAILURES", fails.len()) },
            error.as_ref().map(|e| format!(", ERROR {e}")).unwrap_or_default()
        );
        for f in fails.iter().take(3) {
            eprintln!("    {}", f.fail.msg);
        }
        self.parts.push(json!({
            "part": name,
            "kind": kind,
            "what": what,
            "deviation_bound": bound,
            "executions": stats.executions,
            "states": stats.states,
            "transitions": stats.transitions,
            "distinct_outcomes": stats.distinct_outcomes,
            "max_depth": stats.max_depth,
            "exhausted": stats.exhausted,
            "cap": stats.cap,
            "samples": stats.samples,
            "wall_s": stats.wall,
            "error": error,
            "failures": fails.iter().map(|f| json!({
                "sig": f.fail.sig, "msg": f.fail.msg, "choices": f.choices, "log": f.log,
                "holders": crate::rt::holding().0,
            })).collect::<Vec<_>>(),
        }));
        Part { stats, failed: !fails.is_empty() }
    }
}

/// `BIN PROPERTY quick|thorough OUT.json [--replay FILE] [--only PART]`
pub fn main_with(f: impl FnOnce(&mut Ctx)) {
    crate::rt::silence_panics();
    // Backtraces of errors read files, and the first one reads more of them.
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: {} PROPERTY quick|thorough OUT.json [--replay FILE] [--only PART]", args[0]);
        std::process::exit(2);
    }
    let mut ctx = Ctx {
        property: args[1].clone(),
        tier: if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick },
        replay: None,
        parts: vec![],
        out: args[3].clone(),
        start: Instant::now(),
        budget: Duration::from_secs(
            std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(600),
        ),
        only: None,
    };
    let mut it = args[4..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--replay" => {
                let p = it.next().expect("a file");
                let text = std::fs::read_to_string(p).expect("replay file");
                ctx.replay = Some(serde_json::from_str(&text).expect("replay file"));
            }
            "--only" => ctx.only = it.next().cloned(),
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2);
            }
        }
    }
    f(&mut ctx);
    let doc = json!({ "property": ctx.property, "parts": ctx.parts });
    std::fs::write(&args[3], serde_json::to_string_pretty(&doc).unwrap()).expect("write report");
}
