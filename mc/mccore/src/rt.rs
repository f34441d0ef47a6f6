//! A controlled scheduler: model threads are coroutines on one OS thread;
//! every instrumented operation is a scheduling point whose successor is a
//! choice of the explorer.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, Once};
use std::time::Duration;

use crate::explore::Chooser;
use crate::fiber::{self, Fiber};
use crate::watch;

type Cond = Box<dyn FnMut() -> bool + Send>;

struct Th {
    name: String,
    label: &'static str,
    cond: Option<Cond>,
    /// Logical wake-up time of a sleeper.
    sleep_until: Option<u64>,
    finished: bool,
    daemon: bool,
    /// Lets those go on who wait for the end of this thread.
    ready: Arc<AtomicBool>,
}

/// How an execution ended.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    /// The main thread finished; the named threads were still blocked.
    Done { leaked: Vec<String> },
    /// No thread could run.
    Deadlock(String),
    /// The step limit was reached or time passed without any progress.
    Livelock(String),
    /// The main model thread panicked.
    Panic(String),
}

struct State {
    chooser: Option<Chooser>,
    threads: Vec<Th>,
    current: usize,
    aborting: bool,
    end: Option<End>,
    steps: usize,
    abort_steps: usize,
    now: u64,
    idle_sleeps: usize,
    panics: Vec<String>,
    trace: Vec<String>,
    graveyard: Vec<Cond>,
}

pub struct Exec {
    st: Mutex<State>,
    /// The coroutines, in step with the threads of the state.
    fibers: Mutex<Vec<Fiber>>,
    opts: Opts,
    locals: Mutex<BTreeMap<&'static str, Box<dyn Any + Send>>>,
}

/// Which schedules count as deviations from the default one, which runs a
/// thread until it blocks or ends and then the next one in turn.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bounding {
    /// Preemptions (and early timers) cost one each; who runs after a thread
    /// blocks is free.
    Preemptions,
    /// Every choice against the default costs one.
    Delays,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_steps: usize,
    pub max_idle_sleeps: usize,
    pub bounding: Bounding,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_steps: 20_000,
            max_idle_sleeps: 300,
            bounding: Bounding::Preemptions,
        }
    }
}

impl Opts {
    pub fn delays() -> Self {
        Opts { bounding: Bounding::Delays, ..Default::default() }
    }
}

struct Abort;

thread_local! {
    /// The execution this OS thread drives.
    static EXEC: RefCell<Option<Arc<Exec>>> = const { RefCell::new(None) };
    /// The model thread that runs now.
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn cur() -> Option<(Arc<Exec>, usize)> {
    let t = TID.with(|t| t.get());
    if t == usize::MAX {
        return None;
    }
    EXEC.with(|c| c.borrow().clone()).map(|e| (e, t))
}

/// Whether the caller belongs to a model execution.
pub fn active() -> bool {
    TID.try_with(|t| t.get()).is_ok_and(|t| t != usize::MAX)
}

/// The id of the calling model thread.
pub fn tid() -> usize {
    TID.with(|t| t.get())
}

static HOOK: Once = Once::new();

/// Keeps expected panics of model threads off stderr.
pub fn silence_panics() {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if std::env::var_os("MC_PANICS").is_some() || !QUIET.with(|q| q.get()) && !active() {
                old(info)
            }
        }));
    });
}

thread_local! {
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Catches a panic of the code under test, without printing it.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    silence_panics();
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| panic_text(&*e))
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "opaque panic".into())
}

impl Exec {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Picks the next thread; the caller holds the state and is at a point.
    fn schedule(&self, st: &mut State) {
        if st.end.is_some() || st.aborting {
            return;
        }
        st.steps += 1;
        if st.steps > self.opts.max_steps {
            let d = describe(st);
            self.finish(st, End::Livelock(format!("step limit; {d}")));
            return;
        }
        let me = st.current;
        let mut enabled: Vec<(usize, bool)> = vec![];
        for (i, t) in st.threads.iter_mut().enumerate() {
            if t.finished {
                continue;
            }
            if t.sleep_until.is_some() {
                continue;
            }
            let ok = match &mut t.cond {
                Some(c) => c(),
                None => true,
            };
            if ok {
                enabled.push((i, false));
            }
        }
        let mut sleepers: Vec<(u64, usize)> = st
            .threads
            .iter()
            .enumerate()
            .filter(|(_, t)| !t.finished && t.sleep_until.is_some())
            .map(|(i, t)| (t.sleep_until.unwrap(), i))
            .collect();
        sleepers.sort();
        let idle = enabled.is_empty();
        if idle {
            // Time passes until the first sleeper wakes up.
            let Some(&(first, who)) = sleepers.first() else {
                let d = describe(st);
                self.finish(st, End::Deadlock(d));
                return;
            };
            st.idle_sleeps += 1;
            if st.idle_sleeps > self.opts.max_idle_sleeps {
                let d = describe(st);
                self.finish(st, End::Livelock(format!("only timers run; {d}")));
                return;
            }
            st.now = st.now.max(first);
            st.threads[who].sleep_until = None;
            st.current = who;
            return;
        }
        // Canonical order: the running thread first, then the others in turn;
        // the first timer may fire early at the price of a deviation.
        let n = st.threads.len();
        enabled.sort_by_key(|&(i, _)| (i + n - me) % n);
        if let Some(&(_, who)) = sleepers.first() {
            enabled.push((who, true));
        }
        let running_enabled = enabled[0].0 == me;
        let delays = self.opts.bounding == Bounding::Delays;
        let costs: Vec<u8> = enabled
            .iter()
            .enumerate()
            .map(|(k, &(i, timer))| {
                u8::from(if delays { k > 0 } else { running_enabled && i != me }) + u8::from(timer)
            })
            .collect();
        let n = if costs.len() == 1 {
            0
        } else {
            st.chooser.as_mut().unwrap().choose_costed("schedule", &costs)
        };
        let (next, timer) = enabled[n];
        if timer {
            st.now = st.now.max(st.threads[next].sleep_until.unwrap());
            st.threads[next].sleep_until = None;
        } else {
            st.idle_sleeps = 0;
        }
        if st.chooser.as_ref().unwrap().logging {
            let line = format!("{} {}", st.threads[next].name, st.threads[next].label);
            st.trace.push(line);
        }
        st.current = next;
    }

    fn finish(&self, st: &mut State, end: End) {
        if st.end.is_none() {
            st.end = Some(end);
        }
        st.aborting = true;
        let conds: Vec<Cond> = st.threads.iter_mut().filter_map(|t| t.cond.take()).collect();
        st.graveyard.extend(conds);
    }

    fn point_inner(&self, me: usize, label: &'static str, cond: Option<Cond>, sleep: Option<u64>) {
        if !self.point_raw(me, label, cond, sleep) {
            abort_here();
        }
    }

    /// A scheduling point that tells whether the execution goes on.
    fn point_raw(&self, me: usize, label: &'static str, cond: Option<Cond>, sleep: Option<u64>) -> bool {
        watch::beat();
        let mut st = self.lock();
        if st.aborting {
            st.abort_steps += 1;
            if st.abort_steps > 1_000_000 {
                eprintln!("mccore: an aborted execution does not end ({label})");
                std::process::exit(3);
            }
            drop(st);
            // Not dropped under the lock.
            drop(cond);
            return false;
        }
        st.threads[me].label = label;
        st.threads[me].cond = cond;
        st.threads[me].sleep_until = sleep.map(|d| st.now + d);
        self.schedule(&mut st);
        let (next, aborting) = (st.current, st.aborting);
        drop(st);
        if aborting {
            // The driver unwinds everybody, this thread included.
            self.leave(me);
        } else if next != me {
            self.hand_over(me, next);
        }
        let mut st = self.lock();
        if st.aborting {
            return false;
        }
        // The condition box may own objects whose drop is itself a point.
        let c = st.threads[me].cond.take();
        drop(st);
        drop(c);
        true
    }

    /// Switches from one model thread to another.
    fn hand_over(&self, me: usize, next: usize) {
        TID.with(|t| t.set(next));
        let (from, to) = {
            let mut f = self.fibers.lock().unwrap_or_else(|e| e.into_inner());
            (f[me].slot(), f[next].context())
        };
        // SAFETY: both belong to live coroutines of this OS thread.
        unsafe { fiber::switch(from, to) };
    }

    /// Switches to the driver of the execution.
    fn leave(&self, me: usize) {
        TID.with(|t| t.set(usize::MAX));
        let from = self.fibers.lock().unwrap_or_else(|e| e.into_inner())[me].slot();
        // SAFETY: the driver waits in `resume`.
        unsafe { fiber::switch(from, fiber::driver()) };
    }

    /// Runs a model thread from the driver until one of them leaves.
    fn resume(&self, who: usize) {
        let to = self.fibers.lock().unwrap_or_else(|e| e.into_inner())[who].context();
        TID.with(|t| t.set(who));
        // SAFETY: the coroutine is suspended.
        unsafe { fiber::switch(fiber::driver_slot(), to) };
        TID.with(|t| t.set(usize::MAX));
    }
}

fn abort_here() {
    if !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(Abort));
    }
}

fn describe(st: &State) -> String {
    st.threads
        .iter()
        .filter(|t| !t.finished)
        .map(|t| format!("{} at {}", t.name, t.label))
        .collect::<Vec<_>>()
        .join("; ")
}

/// A scheduling point at which the caller stays enabled.
pub fn point(label: &'static str) {
    if let Some((ex, me)) = cur() {
        ex.point_inner(me, label, None, None);
    }
}

/// A scheduling point at which the caller is enabled while `cond` holds.
///
/// `cond` is evaluated by other threads; it must not block.
pub fn block(label: &'static str, mut cond: impl FnMut() -> bool + Send + 'static) {
    match cur() {
        Some((ex, me)) => {
            ex.point_inner(me, label, Some(Box::new(cond)), None);
        }
        None => {
            while !cond() {
                std::thread::yield_now();
            }
        }
    }
}

/// Like [`block`], for conditions that borrow: the caller does not return
/// before its condition is gone.
pub fn block_ref<'a>(label: &'static str, cond: impl FnMut() -> bool + 'a) {
    let b: Box<dyn FnMut() -> bool + 'a> = Box::new(cond);
    // SAFETY: `point_inner` leaves only after the box was taken out of the
    // thread table (or all boxes were dropped by `finish`), and the thread that
    // evaluates it is the only one that runs.
    let mut b: Cond = unsafe { std::mem::transmute(b) };
    block(label, move || b());
}

/// A scheduling point that never unwinds; tells whether the execution goes on.
pub fn point_nounwind(label: &'static str) -> bool {
    cur().is_none_or(|(ex, me)| ex.point_raw(me, label, None, None))
}

/// Like [`block`], without unwinding.
pub fn block_nounwind(label: &'static str, cond: impl FnMut() -> bool + Send + 'static) -> bool {
    cur().is_none_or(|(ex, me)| ex.point_raw(me, label, Some(Box::new(cond)), None))
}

/// Ends the calling model thread as if it were killed: nothing of it is
/// unwound or dropped.
pub fn abandon() -> ! {
    let (ex, me) = cur().expect("a model thread");
    let ready = ex.lock().threads[me].ready.clone();
    ready.store(true, Ordering::SeqCst);
    drop(ready);
    let from = ex.fibers.lock().unwrap_or_else(|e| e.into_inner())[me].slot();
    // SAFETY: the reference that the coroutine's closure holds is never used
    // nor released again.
    unsafe { Arc::decrement_strong_count(Arc::as_ptr(&ex)) };
    let to = ex.retire(me);
    // SAFETY: both belong to coroutines of this OS thread.
    unsafe { fiber::switch(from, to) };
    unreachable!("an abandoned thread was resumed")
}

/// Somebody tried to take a lock without waiting.
static TRIED: AtomicBool = AtomicBool::new(false);
/// Who releases a lock can be preempted before that.
static HOLDING: AtomicBool = AtomicBool::new(false);

/// A scheduling point of an attempt to take a lock that does not wait.
///
/// Those who wait for a lock cannot tell when it was taken, so that it is not
/// necessary to preempt its holder. Others can: from the next exploration on,
/// there is a point before every release.
pub fn attempt(label: &'static str) {
    TRIED.store(true, Ordering::SeqCst);
    point(label);
}

/// The caller is about to release a lock.
pub fn releasing(label: &'static str) {
    if HOLDING.load(Ordering::SeqCst) && !std::thread::panicking() {
        point_nounwind(label);
    }
}

/// Whether holders are preempted, and whether they should have been.
pub fn holding() -> (bool, bool) {
    let on = HOLDING.load(Ordering::SeqCst);
    (on, !on && TRIED.load(Ordering::SeqCst))
}

pub fn preempt_holders(on: bool) {
    HOLDING.store(on, Ordering::SeqCst);
}

/// Lets logical time pass.
pub fn sleep(label: &'static str, millis: u64) {
    match cur() {
        Some((ex, me)) => ex.point_inner(me, label, None, Some(millis.max(1))),
        None => std::thread::sleep(Duration::from_millis(millis)),
    }
}

/// Stores something with the running execution.
pub fn set_local(key: &'static str, v: Box<dyn Any + Send>) {
    if let Some((ex, _)) = cur() {
        let old = ex.locals.lock().unwrap_or_else(|e| e.into_inner()).insert(key, v);
        drop(old);
    }
}

/// Takes what was stored with the running execution.
pub fn take_local<T: 'static>(key: &'static str) -> Option<T> {
    let (ex, _) = cur()?;
    let v = ex.locals.lock().unwrap_or_else(|e| e.into_inner()).remove(key)?;
    v.downcast().ok().map(|b| *b)
}

/// The logical time in milliseconds.
pub fn now() -> u64 {
    cur().map_or(0, |(ex, _)| ex.lock().now)
}

/// A decision of the environment.
pub fn choose(label: &'static str, n: usize) -> usize {
    match cur() {
        Some((ex, _)) => ex.lock().chooser.as_mut().map_or(0, |c| c.choose(label, n)),
        None => 0,
    }
}

/// A decision of the environment; all alternatives but the first cost one.
pub fn deviate(label: &'static str, n: usize) -> usize {
    match cur() {
        Some((ex, _)) => ex.lock().chooser.as_mut().map_or(0, |c| c.deviate(label, n)),
        None => 0,
    }
}

pub fn note(s: impl FnOnce() -> String) {
    if let Some((ex, me)) = cur() {
        let mut st = ex.lock();
        if st.chooser.as_ref().is_some_and(|c| c.logging) {
            let line = format!("{}: {}", st.threads[me].name, s());
            st.trace.push(line);
        }
    }
}

/// The join handle of a model thread.
pub struct Join<T> {
    exec: Arc<Exec>,
    tid: usize,
    slot: Arc<Mutex<Option<std::thread::Result<T>>>>,
    ready: Arc<AtomicBool>,
}

impl<T> Join<T> {
    pub fn is_finished(&self) -> bool {
        point("is_finished");
        self.exec.lock().threads[self.tid].finished
    }

    pub fn join(self) -> std::thread::Result<T> {
        let ready = self.ready.clone();
        block("join", move || ready.load(Ordering::SeqCst));
        let r = self.slot.lock().unwrap_or_else(|e| e.into_inner()).take();
        match r {
            Some(r) => r,
            None => Err(Box::new("model execution aborted")),
        }
    }
}

/// Spawns a model thread.
pub fn spawn<T: Send + 'static>(
    name: impl Into<String>,
    f: impl FnOnce() -> T + Send + 'static,
) -> Join<T> {
    spawn_(name.into(), false, f)
}

/// Spawns a model thread that is expected to block forever.
pub fn spawn_daemon<T: Send + 'static>(
    name: impl Into<String>,
    f: impl FnOnce() -> T + Send + 'static,
) -> Join<T> {
    spawn_(name.into(), true, f)
}

fn spawn_<T: Send + 'static>(
    name: String,
    daemon: bool,
    f: impl FnOnce() -> T + Send + 'static,
) -> Join<T> {
    let (ex, _) = cur().expect("spawn outside of a model execution");
    let slot = Arc::new(Mutex::new(None));
    let ready = Arc::new(AtomicBool::new(false));
    let tid = ex.add(name, daemon, slot.clone(), ready.clone(), f);
    point("spawn");
    Join { exec: ex, tid, slot, ready }
}

type Slot<T> = Arc<Mutex<Option<std::thread::Result<T>>>>;

impl Exec {
    fn add<T: Send + 'static>(
        self: &Arc<Self>,
        name: String,
        daemon: bool,
        slot: Slot<T>,
        ready: Arc<AtomicBool>,
        f: impl FnOnce() -> T + Send + 'static,
    ) -> usize {
        let mut st = self.lock();
        let tid = st.threads.len();
        st.threads.push(Th {
            name: format!("{name}#{tid}"),
            label: "start",
            cond: None,
            sleep_until: None,
            finished: false,
            daemon,
            ready: ready.clone(),
        });
        drop(st);
        // The execution outlives its coroutines: `run` drops them all.
        let ex = Arc::downgrade(self);
        let fib = Fiber::new(Box::new(move || {
            let ex = ex.upgrade().expect("a running execution");
            body(&ex, tid, slot, ready, f);
            ex.retire(tid)
        }));
        self.fibers.lock().unwrap_or_else(|e| e.into_inner()).push(fib);
        tid
    }

    /// Marks a thread finished and tells where to go on.
    fn retire(self: Arc<Self>, tid: usize) -> fiber::Context {
        let mut st = self.lock();
        st.threads[tid].finished = true;
        let c = st.threads[tid].cond.take();
        st.graveyard.extend(c);
        if !st.aborting {
            if tid == 0 {
                let leaked = st
                    .threads
                    .iter()
                    .filter(|t| !t.finished && !t.daemon)
                    .map(|t| format!("{} at {}", t.name, t.label))
                    .collect();
                self.finish(&mut st, End::Done { leaked });
            } else {
                self.schedule(&mut st);
            }
        }
        let (next, aborting) = (st.current, st.aborting);
        drop(st);
        if aborting {
            TID.with(|t| t.set(usize::MAX));
            return fiber::driver();
        }
        TID.with(|t| t.set(next));
        let c = self.fibers.lock().unwrap_or_else(|e| e.into_inner())[next].context();
        c
    }
}

fn body<T>(
    ex: &Arc<Exec>,
    tid: usize,
    slot: Slot<T>,
    ready: Arc<AtomicBool>,
    f: impl FnOnce() -> T,
) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        if ex.lock().aborting {
            abort_here();
        }
        f()
    }));
    let aborted = matches!(&r, Err(e) if e.is::<Abort>());
    if let (Err(e), false) = (&r, aborted) {
        let text = panic_text(&**e);
        let mut st = ex.lock();
        if !st.aborting {
            let who = st.threads[tid].name.clone();
            st.panics.push(format!("{who}: {text}"));
        }
    }
    if !aborted {
        *slot.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
        ready.store(true, Ordering::SeqCst);
    }
}

pub struct RunResult<T> {
    pub end: End,
    pub value: Option<T>,
    /// Panics of any model thread.
    pub panics: Vec<String>,
    pub steps: usize,
}

/// Runs one execution under the chooser.
pub fn run<T: Send + 'static>(
    ch: &mut Chooser,
    opts: Opts,
    main: impl FnOnce() -> T + Send + 'static,
) -> RunResult<T> {
    silence_panics();
    let bound = ch.bound;
    let chooser = std::mem::replace(ch, Chooser::new(vec![], bound));
    let ex = Arc::new(Exec {
        st: Mutex::new(State {
            chooser: Some(chooser),
            threads: vec![],
            current: 0,
            aborting: false,
            end: None,
            steps: 0,
            abort_steps: 0,
            now: 0,
            idle_sleeps: 0,
            panics: vec![],
            trace: vec![],
            graveyard: vec![],
        }),
        fibers: Default::default(),
        opts,
        locals: Default::default(),
    });
    let slot: Slot<T> = Default::default();
    let old = EXEC.with(|e| e.borrow_mut().replace(ex.clone()));
    assert!(old.is_none(), "an execution within an execution");
    ex.add("main".into(), false, slot.clone(), Arc::default(), main);
    // Returns when the execution has ended; then everybody else unwinds.
    ex.resume(0);
    loop {
        let conds = std::mem::take(&mut ex.lock().graveyard);
        drop(conds);
        let next = {
            let st = ex.lock();
            assert!(st.aborting);
            st.threads.iter().position(|t| !t.finished)
        };
        match next {
            Some(i) => {
                ex.lock().current = i;
                ex.resume(i);
            }
            None => break,
        }
    }
    EXEC.with(|e| e.borrow_mut().take());
    let fibers = std::mem::take(&mut *ex.fibers.lock().unwrap_or_else(|e| e.into_inner()));
    drop(fibers);
    let locals = std::mem::take(&mut *ex.locals.lock().unwrap_or_else(|e| e.into_inner()));
    drop(locals);
    let mut st = ex.lock();
    *ch = st.chooser.take().unwrap();
    let trace = std::mem::take(&mut st.trace);
    ch.log.extend(trace);
    let mut end = st.end.clone().unwrap_or(End::Deadlock("no end".into()));
    let panics = std::mem::take(&mut st.panics);
    let steps = st.steps;
    drop(st);
    let value = match slot.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(Ok(v)) => Some(v),
        Some(Err(e)) => {
            if matches!(end, End::Done { .. }) {
                end = End::Panic(panic_text(&*e));
            }
            None
        }
        None => None,
    };
    RunResult {
        end,
        value,
        panics,
        steps,
    }
}

/// Drives a future on the calling model thread.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, Wake, Waker};
    struct W(AtomicBool);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst);
        }
    }
    let w = Arc::new(W(AtomicBool::new(false)));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        point("poll");
        w.0.store(false, Ordering::SeqCst);
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        let w2 = w.clone();
        block("await", move || w2.0.load(Ordering::SeqCst));
    }
}

/// A future that completes after logical time has passed.
pub struct SleepFuture {
    deadline: Option<u64>,
    millis: u64,
    started: bool,
}

impl SleepFuture {
    pub fn new(millis: u64) -> Self {
        SleepFuture {
            deadline: None,
            millis: millis.max(1),
            started: false,
        }
    }
}

impl std::future::Future for SleepFuture {
    type Output = ();
    fn poll(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<()> {
        let now = now();
        let millis = self.millis;
        let deadline = *self.deadline.get_or_insert(now + millis);
        if now >= deadline {
            return std::task::Poll::Ready(());
        }
        if !self.started {
            self.started = true;
            let waker = cx.waker().clone();
            spawn_daemon("timer", move || {
                sleep("timer", millis);
                waker.wake();
            });
        }
        std::task::Poll::Pending
    }
}
