use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::mem::size_of_val;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::SeqCst};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::time::Duration;
use mccore::rt;

/// An object that may be a static is about to be used.
fn touch<T: ?Sized>(v: &T) {
    mccore::statics::touch(v as *const T as *const u8, size_of_val(v));
}

#[derive(Default)]
struct Raw {
    /// -1: exclusive, n: shared.
    st: AtomicIsize,
    poison: AtomicBool,
}

impl Raw {
    const fn new() -> Self {
        Raw {
            st: AtomicIsize::new(0),
            poison: AtomicBool::new(false),
        }
    }
    fn lock(&self, l: &'static str) {
        rt::block_ref(l, || self.st.load(SeqCst) == 0);
        self.st.store(-1, SeqCst);
    }
    fn try_lock(&self, l: &'static str) -> bool {
        rt::attempt(l);
        self.st.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn read(&self, l: &'static str) {
        rt::block_ref(l, || self.st.load(SeqCst) >= 0);
        self.st.fetch_add(1, SeqCst);
    }
    fn try_read(&self, l: &'static str) -> bool {
        rt::attempt(l);
        if self.st.load(SeqCst) < 0 {
            return false;
        }
        self.st.fetch_add(1, SeqCst);
        true
    }
    fn unlock(&self) {
        if ::std::thread::panicking() {
            self.poison.store(true, SeqCst);
        }
        rt::releasing("unlocking");
        self.st.store(0, SeqCst);
        rt::point("unlock");
    }
    fn unlock_read(&self) {
        rt::releasing("unlocking read");
        self.st.fetch_sub(1, SeqCst);
        rt::point("unlock read");
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex {
            raw: Raw::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}

impl<T: ?Sized> Mutex<T> {
    fn wrap<G>(&self, g: G) -> LockResult<G> {
        if self.raw.poison.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        touch(self);
        self.raw.lock("Mutex::lock");
        self.wrap(MutexGuard { m: self })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        touch(self);
        if self.raw.try_lock("Mutex::try_lock") {
            self.wrap(MutexGuard { m: self }).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poison.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.raw.poison.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.raw.unlock();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock {
            raw: Raw::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn wrap<G>(&self, g: G) -> LockResult<G> {
        if self.raw.poison.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        touch(self);
        self.raw.read("RwLock::read");
        self.wrap(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        touch(self);
        self.raw.lock("RwLock::write");
        self.wrap(RwLockWriteGuard(self))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        touch(self);
        if self.raw.try_read("RwLock::try_read") {
            self.wrap(RwLockReadGuard(self)).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        touch(self);
        if self.raw.try_lock("RwLock::try_write") {
            self.wrap(RwLockWriteGuard(self)).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poison.load(SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(g: Self) -> RwLockReadGuard<'a, T> {
        let l = g.0;
        ::std::mem::forget(g);
        rt::releasing("downgrading");
        l.raw.st.store(1, SeqCst);
        rt::point("downgrade");
        RwLockReadGuard(l)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock_read();
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock();
    }
}

#[derive(Default)]
pub struct Condvar {
    seq: AtomicUsize,
    wakes: AtomicUsize,
    waiting: AtomicUsize,
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            seq: AtomicUsize::new(0),
            wakes: AtomicUsize::new(0),
            waiting: AtomicUsize::new(0),
        }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        self.waiting.fetch_add(1, SeqCst);
        m.raw.st.store(0, SeqCst);
        ::std::mem::forget(g);
        rt::block_ref("Condvar::wait", || self.wakes.load(SeqCst) > 0);
        self.wakes.fetch_sub(1, SeqCst);
        self.waiting.fetch_sub(1, SeqCst);
        m.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        rt::point("notify_one");
        self.seq.fetch_add(1, SeqCst);
        if self.waiting.load(SeqCst) > self.wakes.load(SeqCst) {
            self.wakes.fetch_add(1, SeqCst);
        }
    }
    pub fn notify_all(&self) {
        rt::point("notify_all");
        self.wakes.store(self.waiting.load(SeqCst), SeqCst);
    }
    /// The time may be over at any point.
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        _: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        self.waiting.fetch_add(1, SeqCst);
        m.raw.st.store(0, SeqCst);
        ::std::mem::forget(g);
        rt::sleep("Condvar::wait_timeout", 1);
        let woken = self.wakes.load(SeqCst) > 0;
        if woken {
            self.wakes.fetch_sub(1, SeqCst);
        }
        self.waiting.fetch_sub(1, SeqCst);
        let out = WaitTimeoutResult(!woken);
        match m.lock() {
            Ok(g) => Ok((g, out)),
            Err(e) => Err(PoisonError::new((e.into_inner(), out))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        loop {
            if !f(&mut g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let (g2, t) = self.wait_timeout(g, d)?;
            g = g2;
            if t.0 {
                let still = f(&mut g);
                return Ok((g, WaitTimeoutResult(still)));
            }
        }
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

/// The state of an initialisation: 0 new, 1 running, 2 done.
#[derive(Default)]
struct RawOnce(AtomicUsize);

impl RawOnce {
    const fn new() -> Self {
        RawOnce(AtomicUsize::new(0))
    }
    /// Runs `f` if nobody did; a panic resets the cell as in std's OnceLock.
    fn call(&self, l: &'static str, f: impl FnOnce()) {
        rt::block_ref(l, || self.0.load(SeqCst) != 1);
        if self.0.load(SeqCst) == 2 {
            return;
        }
        self.0.store(1, SeqCst);
        struct Reset<'a>(&'a AtomicUsize, usize);
        impl Drop for Reset<'_> {
            fn drop(&mut self) {
                self.0.store(self.1, SeqCst);
            }
        }
        let mut r = Reset(&self.0, 0);
        f();
        r.1 = 2;
        drop(r);
        rt::point("once done");
    }
    fn done(&self, l: &'static str) -> bool {
        rt::point(l);
        self.0.load(SeqCst) == 2
    }
}

pub struct OnceLock<T> {
    raw: RawOnce,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock {
            raw: RawOnce::new(),
            v: UnsafeCell::new(None),
        }
    }
    pub fn get(&self) -> Option<&T> {
        touch(self);
        if self.raw.done("OnceLock::get") {
            unsafe { (*self.v.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn set(&self, value: T) -> Result<(), T> {
        touch(self);
        let mut value = Some(value);
        self.raw.call("OnceLock::set", || unsafe {
            *self.v.get() = value.take();
        });
        match value {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        touch(self);
        self.raw.call("OnceLock::get_or_init", || {
            let v = f();
            unsafe { *self.v.get() = Some(v) };
        });
        unsafe { (*self.v.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.raw = RawOnce::new();
        self.v.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.get()).finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = Self::new();
        let _ = c.set(v);
        c
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}

pub struct OnceState(());
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        false
    }
}

pub struct Once(RawOnce);
impl Once {
    pub const fn new() -> Self {
        Once(RawOnce::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        touch(self);
        self.0.call("Once::call_once", f)
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        touch(self);
        self.0.call("Once::call_once", || f(&OnceState(())))
    }
    pub fn is_completed(&self) -> bool {
        touch(self);
        self.0.done("Once::is_completed")
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock {
            cell: OnceLock::new(),
            f: UnsafeCell::new(Some(f)),
        }
    }
    pub fn force(this: &Self) -> &T {
        touch(this);
        this.cell
            .get_or_init(|| (unsafe { (*this.f.get()).take() }).expect("LazyLock poisoned")())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
