//! `dashmap` under the controlled scheduler: one shard, whose lock is held as
//! long as the references and entries that dashmap hands out.
use mccore::rt;
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};

#[derive(Default)]
struct Raw(AtomicIsize);
impl Raw {
    fn read(&self, l: &'static str) {
        rt::block_ref(l, || self.0.load(SeqCst) >= 0);
        self.0.fetch_add(1, SeqCst);
    }
    fn write(&self, l: &'static str) {
        rt::block_ref(l, || self.0.load(SeqCst) == 0);
        self.0.store(-1, SeqCst);
    }
    fn try_read(&self) -> bool {
        rt::attempt("dashmap try_read");
        let free = self.0.load(SeqCst) >= 0;
        if free {
            self.0.fetch_add(1, SeqCst);
        }
        free
    }
    fn try_write(&self) -> bool {
        rt::attempt("dashmap try_write");
        self.0.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn unread(&self) {
        rt::releasing("dashmap releasing");
        self.0.fetch_sub(1, SeqCst);
        rt::point("dashmap release");
    }
    fn unwrite(&self) {
        rt::releasing("dashmap releasing");
        self.0.store(0, SeqCst);
        rt::point("dashmap release");
    }
}

pub struct DashMap<K, V, S = RandomState> {
    raw: Raw,
    m: UnsafeCell<HashMap<K, V, S>>,
}
unsafe impl<K: Send, V: Send, S: Send> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S: Sync> Sync for DashMap<K, V, S> {}

impl<K: Eq + Hash, V, S: BuildHasher + Default> Default for DashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K: Eq + Hash, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for DashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("DashMap")
    }
}

pub struct Ref<'a, K, V, S = RandomState> {
    d: &'a DashMap<K, V, S>,
    k: *const K,
    v: *const V,
}
pub struct RefMut<'a, K, V, S = RandomState> {
    d: &'a DashMap<K, V, S>,
    k: *const K,
    v: *mut V,
}
impl<K, V, S> Ref<'_, K, V, S> {
    pub fn key(&self) -> &K {
        unsafe { &*self.k }
    }
    pub fn value(&self) -> &V {
        unsafe { &*self.v }
    }
    pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
    }
}
impl<K, V, S> RefMut<'_, K, V, S> {
    pub fn key(&self) -> &K {
        unsafe { &*self.k }
    }
    pub fn value(&self) -> &V {
        unsafe { &*self.v }
    }
    pub fn value_mut(&mut self) -> &mut V {
        unsafe { &mut *self.v }
    }
}
impl<K, V, S> Deref for Ref<'_, K, V, S> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V, S> Deref for RefMut<'_, K, V, S> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V, S> DerefMut for RefMut<'_, K, V, S> {
    fn deref_mut(&mut self) -> &mut V {
        self.value_mut()
    }
}
impl<K, V, S> Drop for Ref<'_, K, V, S> {
    fn drop(&mut self) {
        self.d.raw.unread();
    }
}
impl<K, V, S> Drop for RefMut<'_, K, V, S> {
    fn drop(&mut self) {
        self.d.raw.unwrite();
    }
}

impl<K: Eq + Hash, V, S: BuildHasher> DashMap<K, V, S> {
    pub fn with_hasher(s: S) -> Self {
        DashMap { raw: Raw::default(), m: UnsafeCell::new(HashMap::with_hasher(s)) }
    }
    fn map(&self) -> &HashMap<K, V, S> {
        unsafe { &*self.m.get() }
    }
    #[allow(clippy::mut_from_ref)]
    fn map_mut(&self) -> &mut HashMap<K, V, S> {
        unsafe { &mut *self.m.get() }
    }
    fn writing<T>(&self, l: &'static str, f: impl FnOnce(&mut HashMap<K, V, S>) -> T) -> T {
        self.raw.write(l);
        let r = f(self.map_mut());
        self.raw.unwrite();
        r
    }
    fn reading<T>(&self, l: &'static str, f: impl FnOnce(&HashMap<K, V, S>) -> T) -> T {
        self.raw.read(l);
        let r = f(self.map());
        self.raw.unread();
        r
    }
    pub fn get<Q>(&self, k: &Q) -> Option<Ref<'_, K, V, S>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.raw.read("dashmap get");
        match self.map().get_key_value(k) {
            Some((k, v)) => Some(Ref { d: self, k, v }),
            None => {
                self.raw.unread();
                None
            }
        }
    }
    pub fn get_mut<Q>(&self, k: &Q) -> Option<RefMut<'_, K, V, S>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.raw.write("dashmap get_mut");
        let key = self.map().get_key_value(k).map(|x| x.0 as *const K);
        match (key, self.map_mut().get_mut(k)) {
            (Some(k), Some(v)) => Some(RefMut { d: self, k, v }),
            _ => {
                self.raw.unwrite();
                None
            }
        }
    }
    pub fn try_get<Q>(&self, k: &Q) -> TryResult<Ref<'_, K, V, S>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        if !self.raw.try_read() {
            return TryResult::Locked;
        }
        match self.map().get_key_value(k) {
            Some((k, v)) => TryResult::Present(Ref { d: self, k, v }),
            None => {
                self.raw.unread();
                TryResult::Absent
            }
        }
    }
    pub fn try_get_mut<Q>(&self, k: &Q) -> TryResult<RefMut<'_, K, V, S>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        if !self.raw.try_write() {
            return TryResult::Locked;
        }
        let key = self.map().get_key_value(k).map(|x| x.0 as *const K);
        match (key, self.map_mut().get_mut(k)) {
            (Some(k), Some(v)) => TryResult::Present(RefMut { d: self, k, v }),
            _ => {
                self.raw.unwrite();
                TryResult::Absent
            }
        }
    }
    pub fn try_entry(&self, key: K) -> Option<Entry<'_, K, V, S>> {
        if !self.raw.try_write() {
            return None;
        }
        let g = Guard(self);
        Some(if self.map().contains_key(&key) {
            Entry::Occupied(OccupiedEntry { g, key })
        } else {
            Entry::Vacant(VacantEntry { g, key })
        })
    }
    pub fn remove_if<Q>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.writing("dashmap remove_if", |m| match m.get_key_value(k) {
            Some((a, b)) if f(a, b) => m.remove_entry(k),
            _ => None,
        })
    }
    pub fn view<Q, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.reading("dashmap view", |m| m.get_key_value(k).map(|(a, b)| f(a, b)))
    }
    pub fn shrink_to_fit(&self) {}
    pub fn capacity(&self) -> usize {
        self.reading("dashmap capacity", |m| m.capacity())
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        self.writing("dashmap insert", |m| m.insert(k, v))
    }
    pub fn remove<Q>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.writing("dashmap remove", |m| m.remove_entry(k))
    }
    pub fn contains_key<Q>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.reading("dashmap contains_key", |m| m.contains_key(k))
    }
    pub fn len(&self) -> usize {
        self.reading("dashmap len", |m| m.len())
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) {
        self.writing("dashmap clear", |m| m.clear())
    }
    pub fn retain(&self, f: impl FnMut(&K, &mut V) -> bool) {
        self.writing("dashmap retain", |m| m.retain(f))
    }
    pub fn entry(&self, key: K) -> Entry<'_, K, V, S> {
        self.raw.write("dashmap entry");
        let g = Guard(self);
        if self.map().contains_key(&key) {
            Entry::Occupied(OccupiedEntry { g, key })
        } else {
            Entry::Vacant(VacantEntry { g, key })
        }
    }
}

pub mod try_result {
    pub use crate::TryResult;
}
#[derive(Debug)]
pub enum TryResult<R> {
    Present(R),
    Absent,
    Locked,
}
impl<R> TryResult<R> {
    pub fn is_present(&self) -> bool {
        matches!(self, TryResult::Present(_))
    }
    pub fn is_absent(&self) -> bool {
        matches!(self, TryResult::Absent)
    }
    pub fn is_locked(&self) -> bool {
        matches!(self, TryResult::Locked)
    }
    pub fn unwrap(self) -> R {
        match self {
            TryResult::Present(r) => r,
            TryResult::Absent => panic!("Called unwrap() on TryResult::Absent"),
            TryResult::Locked => panic!("Called unwrap() on TryResult::Locked"),
        }
    }
    pub fn try_unwrap(self) -> Option<R> {
        match self {
            TryResult::Present(r) => Some(r),
            _ => None,
        }
    }
}

struct Guard<'a, K, V, S>(&'a DashMap<K, V, S>);
impl<K, V, S> Drop for Guard<'_, K, V, S> {
    fn drop(&mut self) {
        self.0.raw.unwrite();
    }
}
pub enum Entry<'a, K, V, S = RandomState> {
    Occupied(OccupiedEntry<'a, K, V, S>),
    Vacant(VacantEntry<'a, K, V, S>),
}
pub struct OccupiedEntry<'a, K, V, S = RandomState> {
    g: Guard<'a, K, V, S>,
    key: K,
}
pub struct VacantEntry<'a, K, V, S = RandomState> {
    g: Guard<'a, K, V, S>,
    key: K,
}
impl<'a, K: Eq + Hash, V, S: BuildHasher> OccupiedEntry<'a, K, V, S> {
    pub fn get(&self) -> &V {
        &self.g.0.map()[&self.key]
    }
    pub fn get_mut(&mut self) -> &mut V {
        self.g.0.map_mut().get_mut(&self.key).unwrap()
    }
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.g.0.map_mut().remove(&self.key).unwrap()
    }
    pub fn into_ref(self) -> RefMut<'a, K, V, S> {
        let d = self.g.0;
        std::mem::forget(self.g);
        let k = d.map().get_key_value(&self.key).unwrap().0 as *const K;
        let v = d.map_mut().get_mut(&self.key).unwrap();
        RefMut { d, k, v }
    }
}
impl<'a, K: Eq + Hash + Clone, V, S: BuildHasher> VacantEntry<'a, K, V, S> {
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn insert(self, v: V) -> RefMut<'a, K, V, S> {
        let d = self.g.0;
        std::mem::forget(self.g);
        d.map_mut().insert(self.key.clone(), v);
        let k = d.map().get_key_value(&self.key).unwrap().0 as *const K;
        let v = d.map_mut().get_mut(&self.key).unwrap();
        RefMut { d, k, v }
    }
}
impl<'a, K: Eq + Hash + Clone, V, S: BuildHasher> Entry<'a, K, V, S> {
    pub fn or_insert(self, v: V) -> RefMut<'a, K, V, S> {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V, S> {
        match self {
            Entry::Occupied(o) => o.into_ref(),
            Entry::Vacant(x) => {
                let v = f();
                x.insert(v)
            }
        }
    }
    pub fn or_try_insert_with<E>(self, f: impl FnOnce() -> Result<V, E>) -> Result<RefMut<'a, K, V, S>, E> {
        match self {
            Entry::Occupied(o) => Ok(o.into_ref()),
            Entry::Vacant(x) => {
                let v = f()?;
                Ok(x.insert(v))
            }
        }
    }
    pub fn insert(self, v: V) -> RefMut<'a, K, V, S> {
        match self {
            Entry::Occupied(mut o) => {
                o.insert(v);
                o.into_ref()
            }
            Entry::Vacant(x) => x.insert(v),
        }
    }
    pub fn or_default(self) -> RefMut<'a, K, V, S>
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut());
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => &o.key,
            Entry::Vacant(v) => &v.key,
        }
    }
}
pub mod mapref {
    pub mod one {
        pub use crate::{Ref, RefMut};
    }
    pub mod entry {
        pub use crate::{Entry, OccupiedEntry, VacantEntry};
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> IntoIterator for DashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = std::collections::hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.m.into_inner().into_iter()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for DashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let d = Self::default();
        d.map_mut().extend(i);
        d
    }
}
