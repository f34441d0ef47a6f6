use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};

/// Wraps a type with its hash.
#[derive(Clone)]
pub struct LazyHash<T: ?Sized>(T);

impl<T> LazyHash<T> {
    pub fn new(v: T) -> Self {
        LazyHash(v)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T: Default> Default for LazyHash<T> {
    fn default() -> Self {
        LazyHash(T::default())
    }
}
impl<T: ?Sized> Deref for LazyHash<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for LazyHash<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<T: Hash + ?Sized> Hash for LazyHash<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T: PartialEq + ?Sized> PartialEq for LazyHash<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq + ?Sized> Eq for LazyHash<T> {}
impl<T: fmt::Debug> fmt::Debug for LazyHash<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> From<T> for LazyHash<T> {
    fn from(v: T) -> Self {
        LazyHash(v)
    }
}

/// Extra methods for [`Option<T>`].
pub trait OptionExt<T> {
    fn map_or_default<U: Default, F>(self, f: F) -> U
    where
        F: FnOnce(T) -> U;
}
impl<T> OptionExt<T> for Option<T> {
    fn map_or_default<U: Default, F>(self, f: F) -> U
    where
        F: FnOnce(T) -> U,
    {
        match self {
            Some(x) => f(x),
            None => U::default(),
        }
    }
}
