//! `parking_lot` under the controlled scheduler.
use mcstd::sync as s;
pub use s::{Once, OnceState};
use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Default)]
pub struct Mutex<T: ?Sized>(s::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(Option<s::MutexGuard<'a, T>>);
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex(s::Mutex::new(v))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        MutexGuard(Some(self.0.lock().unwrap_or_else(|e| e.into_inner())))
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        match self.0.try_lock() {
            Ok(g) => Some(MutexGuard(Some(g))),
            Err(std::sync::TryLockError::Poisoned(e)) => Some(MutexGuard(Some(e.into_inner()))),
            Err(_) => None,
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut().unwrap_or_else(|e| e.into_inner())
    }
    pub fn is_locked(&self) -> bool {
        self.try_lock().is_none()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(s::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized>(s::RwLockReadGuard<'a, T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(s::RwLockWriteGuard<'a, T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock(s::RwLock::new(v))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        RwLockReadGuard(self.0.read().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        RwLockWriteGuard(self.0.write().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        match self.0.try_read() {
            Ok(g) => Some(RwLockReadGuard(g)),
            Err(std::sync::TryLockError::Poisoned(e)) => Some(RwLockReadGuard(e.into_inner())),
            Err(_) => None,
        }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        match self.0.try_write() {
            Ok(g) => Some(RwLockWriteGuard(g)),
            Err(std::sync::TryLockError::Poisoned(e)) => Some(RwLockWriteGuard(e.into_inner())),
            Err(_) => None,
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

/// A part of what a guard protects.
pub struct Mapped<G, U: ?Sized> {
    _guard: G,
    at: *mut U,
}
impl<G, U: ?Sized> Deref for Mapped<G, U> {
    type Target = U;
    fn deref(&self) -> &U {
        // SAFETY: the guard outlives this.
        unsafe { &*self.at }
    }
}
pub struct MappedMut<G, U: ?Sized>(Mapped<G, U>);
impl<G, U: ?Sized> Deref for MappedMut<G, U> {
    type Target = U;
    fn deref(&self) -> &U {
        &self.0
    }
}
impl<G, U: ?Sized> DerefMut for MappedMut<G, U> {
    fn deref_mut(&mut self) -> &mut U {
        // SAFETY: the guard is exclusive.
        unsafe { &mut *self.0.at }
    }
}
pub type MappedMutexGuard<'a, T, U> = MappedMut<MutexGuard<'a, T>, U>;
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized>(mut g: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedMut<Self, U> {
        let at = f(&mut g) as *mut U;
        MappedMut(Mapped { _guard: g, at })
    }
}
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized>(g: Self, f: impl FnOnce(&T) -> &U) -> Mapped<Self, U> {
        let at = f(&g) as *const U as *mut U;
        Mapped { _guard: g, at }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn map<U: ?Sized>(mut g: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedMut<Self, U> {
        let at = f(&mut g) as *mut U;
        MappedMut(Mapped { _guard: g, at })
    }
    pub fn downgrade(g: Self) -> RwLockReadGuard<'a, T> {
        RwLockReadGuard(s::RwLockWriteGuard::downgrade(g.0))
    }
}
impl<T: ?Sized> Mutex<T> {
    /// The time may be over before the lock is free.
    pub fn try_lock_for(&self, _: std::time::Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn try_read_for(&self, _: std::time::Duration) -> Option<RwLockReadGuard<'_, T>> {
        self.try_read()
    }
    pub fn try_write_for(&self, _: std::time::Duration) -> Option<RwLockWriteGuard<'_, T>> {
        self.try_write()
    }
    /// Nobody is preferred.
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
}

#[derive(Debug, Default)]
pub struct Condvar(s::Condvar);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(s::Condvar::new())
    }
    pub fn wait<T>(&self, g: &mut MutexGuard<'_, T>) {
        let inner = g.0.take().unwrap();
        g.0 = Some(self.0.wait(inner).unwrap_or_else(|e| e.into_inner()));
    }
    pub fn wait_while<T>(&self, g: &mut MutexGuard<'_, T>, mut f: impl FnMut(&mut T) -> bool) {
        while f(&mut *g) {
            self.wait(g);
        }
    }
    pub fn notify_one(&self) -> bool {
        self.0.notify_one();
        true
    }
    pub fn notify_all(&self) -> usize {
        self.0.notify_all();
        0
    }
}
