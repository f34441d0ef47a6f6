//! `rayon` as an enumerable environment: what rayon leaves unordered is run in
//! an order that a choice decides. The choices come from the environment
//! variable `MC_RAYON` (comma-separated), and the number of alternatives of
//! every choice is written to the file named by `MC_RAYON_TRACE`; inside a
//! model execution they are choices of the explorer.

use std::sync::Mutex;

static POS: Mutex<usize> = Mutex::new(0);

fn choose(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    if mccore::rt::active() {
        return mccore::rt::deviate("rayon order", n);
    }
    let mut pos = POS.lock().unwrap();
    let got = std::env::var("MC_RAYON")
        .ok()
        .and_then(|s| s.split(',').nth(*pos).and_then(|x| x.trim().parse().ok()))
        .unwrap_or(0);
    *pos += 1;
    if let Ok(p) = std::env::var("MC_RAYON_TRACE") {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
        writeln!(f, "{n}").unwrap();
    }
    got
}

/// How many items the runs may permute; the items after them follow in order.
const MAX_PERMUTED: usize = 4;

fn order(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let c = if out.len() < MAX_PERMUTED { choose(left.len().min(MAX_PERMUTED)) } else { 0 };
        out.push(left.remove(c));
    }
    out
}

/// A parallel iterator that holds its items.
pub struct Par<T> {
    items: Vec<T>,
    /// Whether the items keep their order in what is collected.
    ordered: bool,
}

impl<T> Par<T> {
    fn each<R>(self, mut f: impl FnMut(T) -> R) -> Par<R> {
        let ordered = self.ordered;
        let mut slots: Vec<Option<T>> = self.items.into_iter().map(Some).collect();
        let n = slots.len();
        let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
        let ord = order(n);
        for &i in &ord {
            out[i] = Some(f(slots[i].take().unwrap()));
        }
        let items = if ordered {
            out.into_iter().map(Option::unwrap).collect()
        } else {
            ord.into_iter().map(|i| out[i].take().unwrap()).collect()
        };
        Par { items, ordered }
    }
}

pub mod iter {
    use super::{order, Par};

    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        #[doc(hidden)]
        fn par(self) -> Par<Self::Item>;

        fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R> {
            self.par().each(f)
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            self.par().each(f);
        }
        fn try_for_each<E: Send, F>(self, f: F) -> Result<(), E>
        where
            F: Fn(Self::Item) -> Result<(), E> + Sync + Send,
        {
            let r = self.par().each(f);
            // Any of the errors may be the one that is returned.
            let mut errs: Vec<E> = r.items.into_iter().filter_map(Result::err).collect();
            if errs.is_empty() {
                return Ok(());
            }
            let i = super::choose(errs.len());
            Err(errs.swap_remove(i))
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
            let p = self.par().each(|x| if f(&x) { Some(x) } else { None });
            Par { items: p.items.into_iter().flatten().collect(), ordered: p.ordered }
        }
        fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Par<R> {
            let p = self.par().each(f);
            Par { items: p.items.into_iter().flatten().collect(), ordered: p.ordered }
        }
        fn flat_map<P, F>(self, f: F) -> Par<P::Item>
        where
            P: IntoParallelIterator,
            F: Fn(Self::Item) -> P + Sync + Send,
        {
            let p = self.par().each(|x| f(x).into_par_iter().par().items);
            Par { items: p.items.into_iter().flatten().collect(), ordered: p.ordered }
        }
        fn flat_map_iter<P, F>(self, f: F) -> Par<P::Item>
        where
            P: IntoIterator,
            P::Item: Send,
            F: Fn(Self::Item) -> P + Sync + Send,
        {
            let p = self.par().each(|x| f(x).into_iter().collect::<Vec<_>>());
            Par { items: p.items.into_iter().flatten().collect(), ordered: p.ordered }
        }
        fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
            self.par().each(|x| {
                f(&x);
                x
            })
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.par().each(f).items.into_iter().any(|x| x)
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.par().each(f).items.into_iter().all(|x| x)
        }
        fn count(self) -> usize {
            self.par().items.len()
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            self.par().items.into_iter().sum()
        }
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            let p = self.par();
            Par { items: p.items.into_iter().enumerate().collect(), ordered: p.ordered }
        }
        fn map_with<S: Send + Clone, R: Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, s: S, f: F) -> Par<R> {
            self.par().each(|x| f(&mut s.clone(), x))
        }
        fn fold<A: Send, I: Fn() -> A + Sync + Send, F: Fn(A, Self::Item) -> A + Sync + Send>(self, id: I, f: F) -> Par<A> {
            // Every item may be folded by its own worker.
            self.par().each(|x| f(id(), x))
        }
        fn reduce<I: Fn() -> Self::Item + Sync + Send, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: I, f: F) -> Self::Item {
            self.par().items.into_iter().fold(id(), f)
        }
        fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.par().items.into_iter().reduce(f)
        }
        fn flatten(self) -> Par<<Self::Item as IntoParallelIterator>::Item>
        where
            Self::Item: IntoParallelIterator,
        {
            self.flat_map(|x| x)
        }
        fn flatten_iter(self) -> Par<<Self::Item as IntoIterator>::Item>
        where
            Self::Item: IntoIterator,
            <Self::Item as IntoIterator>::Item: Send,
        {
            self.flat_map_iter(|x| x)
        }
        fn cloned<'a, T: 'a + Clone + Send + Sync>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            let p = self.par();
            Par { items: p.items.into_iter().cloned().collect(), ordered: p.ordered }
        }
        fn copied<'a, T: 'a + Copy + Send + Sync>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            self.cloned()
        }
        fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Par<Self::Item> {
            let mut p = self.par();
            p.items.extend(c.into_par_iter().par().items);
            p
        }
        fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            let mut v = self.filter(f).items;
            (!v.is_empty()).then(|| v.swap_remove(super::choose(v.len())))
        }
        fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.filter(f).items.into_iter().next()
        }
        fn partition<A, B, F>(self, f: F) -> (A, B)
        where
            A: Default + Extend<Self::Item>,
            B: Default + Extend<Self::Item>,
            F: Fn(&Self::Item) -> bool + Sync + Send,
        {
            let (mut a, mut b) = (A::default(), B::default());
            for x in self.par().items {
                if f(&x) {
                    a.extend([x]);
                } else {
                    b.extend([x]);
                }
            }
            (a, b)
        }
        fn unzip<X: Send, Y: Send, A: Default + Extend<X>, B: Default + Extend<Y>>(self) -> (A, B)
        where
            Self: ParallelIterator<Item = (X, Y)>,
        {
            self.par().items.into_iter().unzip()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.par().items.into_iter().min()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.par().items.into_iter().max()
        }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
            *v = self.par().items;
        }
        fn with_min_len(self, _: usize) -> Par<Self::Item> {
            self.par()
        }
        fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
            C::from_par(self.par())
        }
    }
    pub use ParallelIterator as IndexedParallelIterator;

    impl<T: Send> ParallelIterator for Par<T> {
        type Item = T;
        fn par(self) -> Par<T> {
            self
        }
    }

    pub trait FromParallelIterator<T> {
        fn from_par(p: Par<T>) -> Self;
    }
    pub trait ParallelExtend<T: Send> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
    }
    impl<T: Send, C: Extend<T>> ParallelExtend<T> for C {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
            self.extend(i.into_par_iter().par().items)
        }
    }
    impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {
        fn from_par(p: Par<T>) -> Self {
            p.items.into_iter().collect()
        }
    }

    pub trait IntoParallelIterator {
        type Item: Send;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: IntoIterator> IntoParallelIterator for I
    where
        I::Item: Send,
    {
        type Item = I::Item;
        type Iter = Par<I::Item>;
        fn into_par_iter(self) -> Par<I::Item> {
            Par { items: self.into_iter().collect(), ordered: true }
        }
    }
    impl<T: Send> IntoParallelIterator for Par<T> {
        type Item = T;
        type Iter = Par<T>;
        fn into_par_iter(self) -> Par<T> {
            self
        }
    }

    pub trait IntoParallelRefIterator<'a> {
        type Item: Send + 'a;
        fn par_iter(&'a self) -> Par<Self::Item>;
    }
    impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
    where
        &'a I: IntoIterator,
        <&'a I as IntoIterator>::Item: Send,
    {
        type Item = <&'a I as IntoIterator>::Item;
        fn par_iter(&'a self) -> Par<Self::Item> {
            Par { items: self.into_iter().collect(), ordered: true }
        }
    }

    pub trait IntoParallelRefMutIterator<'a> {
        type Item: Send + 'a;
        fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
    }
    impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I
    where
        &'a mut I: IntoIterator,
        <&'a mut I as IntoIterator>::Item: Send,
    {
        type Item = <&'a mut I as IntoIterator>::Item;
        fn par_iter_mut(&'a mut self) -> Par<Self::Item> {
            Par { items: self.into_iter().collect(), ordered: true }
        }
    }

    pub trait ParallelBridge: Sized {
        type Item: Send;
        fn par_bridge(self) -> Par<Self::Item>;
    }
    impl<I: Iterator> ParallelBridge for I
    where
        I::Item: Send,
    {
        type Item = I::Item;
        /// The items of a bridged iterator reach the workers in no particular
        /// order.
        fn par_bridge(self) -> Par<I::Item> {
            let mut slots: Vec<Option<I::Item>> = self.map(Some).collect();
            let items = order(slots.len()).into_iter().map(|i| slots[i].take().unwrap()).collect();
            Par { items, ordered: false }
        }
    }
}

pub mod slice {
    pub trait ParallelSliceMut<T> {
        fn slice(&mut self) -> &mut [T];
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.slice().sort()
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.slice().sort_unstable()
        }
        fn par_sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            self.slice().sort_by(f)
        }
        fn par_sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
            self.slice().sort_by_key(f)
        }
        fn par_sort_unstable_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            // Equal items end up in any order: backwards here.
            self.slice().reverse();
            self.slice().sort_by(f)
        }
        fn par_sort_unstable_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
            self.slice().reverse();
            self.slice().sort_by_key(f)
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn slice(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod str {
    use super::Par;

    /// What strings are split at.
    pub trait Pattern {
        fn hit(&self, c: char) -> bool;
    }
    impl Pattern for char {
        fn hit(&self, c: char) -> bool {
            *self == c
        }
    }
    impl Pattern for &[char] {
        fn hit(&self, c: char) -> bool {
            self.contains(&c)
        }
    }
    impl<const N: usize> Pattern for [char; N] {
        fn hit(&self, c: char) -> bool {
            self.contains(&c)
        }
    }
    impl<F: Fn(char) -> bool> Pattern for F {
        fn hit(&self, c: char) -> bool {
            self(c)
        }
    }

    pub trait ParallelString {
        fn as_parallel_string(&self) -> &str;
        fn par_split<'c, P: Pattern>(&'c self, p: P) -> Par<&'c str> {
            Par { items: self.as_parallel_string().split(|c| p.hit(c)).collect(), ordered: true }
        }
        fn par_split_terminator<'c, P: Pattern>(&'c self, p: P) -> Par<&'c str> {
            Par { items: self.as_parallel_string().split_terminator(|c| p.hit(c)).collect(), ordered: true }
        }
        fn par_split_inclusive<'c, P: Pattern>(&'c self, p: P) -> Par<&'c str> {
            Par { items: self.as_parallel_string().split_inclusive(|c| p.hit(c)).collect(), ordered: true }
        }
        fn par_split_whitespace(&self) -> Par<&str> {
            Par { items: self.as_parallel_string().split_whitespace().collect(), ordered: true }
        }
        fn par_lines(&self) -> Par<&str> {
            Par { items: self.as_parallel_string().lines().collect(), ordered: true }
        }
        fn par_matches<P: Pattern>(&self, p: P) -> Par<&str> {
            Par { items: self.as_parallel_string().matches(|c| p.hit(c)).collect(), ordered: true }
        }
        fn par_match_indices<P: Pattern>(&self, p: P) -> Par<(usize, &str)> {
            Par { items: self.as_parallel_string().match_indices(|c| p.hit(c)).collect(), ordered: true }
        }
        fn par_char_indices(&self) -> Par<(usize, char)> {
            Par { items: self.as_parallel_string().char_indices().collect(), ordered: true }
        }
        fn par_chars(&self) -> Par<char> {
            Par { items: self.as_parallel_string().chars().collect(), ordered: true }
        }
    }
    impl ParallelString for str {
        fn as_parallel_string(&self) -> &str {
            self
        }
    }
}

pub mod prelude {
    pub use super::iter::{
        IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge,
        FromParallelIterator, IndexedParallelIterator, ParallelExtend, ParallelIterator,
    };
    pub use super::slice::ParallelSliceMut;
    pub use super::str::ParallelString;
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if choose(2) == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}

/// Runs `f` on the pool: on a thread of the model inside a model execution,
/// at once otherwise.
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    if mccore::rt::active() {
        mccore::rt::spawn_daemon("rayon", f);
    } else {
        f();
    }
}

pub struct Scope<'scope>(std::marker::PhantomData<&'scope ()>);
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope(std::marker::PhantomData))
}
