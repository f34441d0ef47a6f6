//! The part of `rpds` the code under test uses: a persistent ordered map whose
//! clones share their entries. Here as a sorted vector that is copied when it
//! is changed.

use std::borrow::Borrow;
use std::fmt;
use std::sync::Arc;

pub struct RedBlackTreeMapSync<K, V>(Arc<Vec<(Arc<K>, Arc<V>)>>);

impl<K, V> Clone for RedBlackTreeMapSync<K, V> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<K, V> Default for RedBlackTreeMapSync<K, V> {
    fn default() -> Self {
        Self(Arc::new(vec![]))
    }
}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for RedBlackTreeMapSync<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish()
    }
}
impl<K: PartialEq, V: PartialEq> PartialEq for RedBlackTreeMapSync<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

impl<K: Ord, V> RedBlackTreeMapSync<K, V> {
    pub fn new_sync() -> Self {
        Self::default()
    }
    fn find<Q: Ord + ?Sized>(&self, k: &Q) -> Result<usize, usize>
    where
        K: Borrow<Q>,
    {
        self.0.binary_search_by(|(e, _)| e.as_ref().borrow().cmp(k))
    }
    fn own(&mut self) -> &mut Vec<(Arc<K>, Arc<V>)> {
        if Arc::get_mut(&mut self.0).is_none() {
            self.0 = Arc::new(self.0.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
        }
        Arc::get_mut(&mut self.0).unwrap()
    }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).ok().map(|i| self.0[i].1.as_ref())
    }
    pub fn get_key_value<Q: Ord + ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).ok().map(|i| (self.0[i].0.as_ref(), self.0[i].1.as_ref()))
    }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_ok()
    }
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
        V: Clone,
    {
        let i = self.find(k).ok()?;
        Some(Arc::make_mut(&mut self.own()[i].1))
    }
    pub fn insert_mut(&mut self, k: K, v: V) {
        match self.find(&k) {
            Ok(i) => self.own()[i] = (Arc::new(k), Arc::new(v)),
            Err(i) => self.own().insert(i, (Arc::new(k), Arc::new(v))),
        }
    }
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut n = self.clone();
        n.insert_mut(k, v);
        n
    }
    pub fn remove_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Ok(i) => {
                self.own().remove(i);
                true
            }
            Err(_) => false,
        }
    }
    pub fn remove<Q: Ord + ?Sized>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut n = self.clone();
        n.remove_mut(k);
        n
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> + ExactSizeIterator {
        self.0.iter().map(|(k, v)| (k.as_ref(), v.as_ref()))
    }
    pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> {
        self.0.iter().map(|(k, _)| k.as_ref())
    }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> {
        self.0.iter().map(|(_, v)| v.as_ref())
    }
}
impl<K: Ord, V> FromIterator<(K, V)> for RedBlackTreeMapSync<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        for (k, v) in it {
            m.insert_mut(k, v);
        }
        m
    }
}
