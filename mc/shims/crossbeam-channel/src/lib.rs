//! `crossbeam-channel` under the controlled scheduler.
use mccore::rt;
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::{Duration, Instant};

struct St<T> {
    q: VecDeque<(u64, T)>,
    next: u64,
    cap: Option<usize>,
    senders: usize,
    receivers: usize,
    receiving: usize,
}
struct Chan<T> {
    st: Mutex<St<T>>,
}
impl<T> Chan<T> {
    fn lock(&self) -> MutexGuard<'_, St<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
macro_rules! err {
    ($($n:ident $(<$t:ident>)?: $m:literal;)*) => {$(
        impl $(<$t>)? fmt::Display for $n $(<$t>)? {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($m) }
        }
    )*};
}
err! { SendError<T>: "sending on a disconnected channel"; TrySendError<T>: "try_send failed"; SendTimeoutError<T>: "send timeout";
RecvError: "receiving on an empty and disconnected channel"; TryRecvError: "try_recv failed"; RecvTimeoutError: "recv timeout"; }
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("TrySendError(..)")
    }
}
impl<T> fmt::Debug for SendTimeoutError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendTimeoutError(..)")
    }
}
impl<T: Send> std::error::Error for SendError<T> {}
impl<T: Send> std::error::Error for TrySendError<T> {}
impl<T: Send> std::error::Error for SendTimeoutError<T> {}
impl<T> SendTimeoutError<T> {
    pub fn into_inner(self) -> T {
        match self {
            SendTimeoutError::Timeout(v) | SendTimeoutError::Disconnected(v) => v,
        }
    }
    pub fn is_timeout(&self) -> bool {
        matches!(self, SendTimeoutError::Timeout(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, SendTimeoutError::Disconnected(_))
    }
}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            TrySendError::Full(v) | TrySendError::Disconnected(v) => v,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, TrySendError::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, TrySendError::Disconnected(_))
    }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        matches!(self, TryRecvError::Empty)
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, TryRecvError::Disconnected)
    }
}
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool {
        matches!(self, RecvTimeoutError::Timeout)
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, RecvTimeoutError::Disconnected)
    }
}
impl<T> From<SendError<T>> for TrySendError<T> {
    fn from(e: SendError<T>) -> Self {
        TrySendError::Disconnected(e.0)
    }
}
impl<T> From<SendError<T>> for SendTimeoutError<T> {
    fn from(e: SendError<T>) -> Self {
        SendTimeoutError::Disconnected(e.0)
    }
}
impl From<RecvError> for TryRecvError {
    fn from(_: RecvError) -> Self {
        TryRecvError::Disconnected
    }
}
impl From<RecvError> for RecvTimeoutError {
    fn from(_: RecvError) -> Self {
        RecvTimeoutError::Disconnected
    }
}
impl std::error::Error for RecvError {}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvTimeoutError {}

fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        st: Mutex::new(St {
            q: VecDeque::new(),
            next: 0,
            cap,
            senders: 1,
            receivers: 1,
            receiving: 0,
        }),
    });
    (Sender(c.clone()), Receiver(c))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap))
}
pub fn never<T>() -> Receiver<T> {
    let (s, r) = make(None);
    std::mem::forget(s);
    r
}

impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        let c = &self.0;
        rt::block_ref("send", || {
            let st = c.lock();
            match st.cap {
                Some(n) if n > 0 => st.receivers == 0 || st.q.len() < n,
                _ => true,
            }
        });
        let ticket = {
            let mut st = c.lock();
            if st.receivers == 0 {
                return Err(SendError(v));
            }
            let t = st.next;
            st.next += 1;
            st.q.push_back((t, v));
            if st.cap != Some(0) {
                return Ok(());
            }
            t
        };
        // Rendezvous: wait until the offer is taken.
        rt::block_ref("send rendezvous", || {
            let st = c.lock();
            st.receivers == 0 || !st.q.iter().any(|(t, _)| *t == ticket)
        });
        let mut st = c.lock();
        match st.q.iter().position(|(t, _)| *t == ticket) {
            Some(i) => Err(SendError(st.q.remove(i).unwrap().1)),
            None => Ok(()),
        }
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        rt::point("try_send");
        let mut st = self.0.lock();
        if st.receivers == 0 {
            return Err(TrySendError::Disconnected(v));
        }
        let full = match st.cap {
            Some(0) => st.receiving <= st.q.len(),
            Some(n) => st.q.len() >= n,
            None => false,
        };
        if full {
            return Err(TrySendError::Full(v));
        }
        let t = st.next;
        st.next += 1;
        st.q.push_back((t, v));
        Ok(())
    }
    /// The time may be over before there is space.
    pub fn send_timeout(&self, v: T, _: Duration) -> Result<(), SendTimeoutError<T>> {
        rt::point("send_timeout");
        let full = {
            let st = self.0.lock();
            st.receivers > 0
                && match st.cap {
                    Some(0) => st.receiving <= st.q.len(),
                    Some(n) => st.q.len() >= n,
                    None => false,
                }
        };
        if full && rt::deviate("send_timeout is over", 2) == 1 {
            return Err(SendTimeoutError::Timeout(v));
        }
        self.send(v).map_err(|e| SendTimeoutError::Disconnected(e.0))
    }
    pub fn send_deadline(&self, v: T, _: Instant) -> Result<(), SendTimeoutError<T>> {
        self.send_timeout(v, Duration::ZERO)
    }
    pub fn len(&self) -> usize {
        rt::point("len");
        let st = self.0.lock();
        if st.cap == Some(0) {
            0
        } else {
            st.q.len()
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        rt::point("is_full");
        let st = self.0.lock();
        match st.cap {
            Some(0) => true,
            Some(n) => st.q.len() >= n,
            None => false,
        }
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.lock().cap
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.lock().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.lock().senders -= 1;
        rt::point("drop sender");
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> Receiver<T> {
    #[doc(hidden)]
    pub fn __ready(&self) -> bool {
        let st = self.0.lock();
        !st.q.is_empty() || st.senders == 0
    }
    #[doc(hidden)]
    pub fn __take(&self) -> Result<T, RecvError> {
        self.0.lock().q.pop_front().map(|x| x.1).ok_or(RecvError)
    }
    #[doc(hidden)]
    pub fn __receiving(&self, d: isize) {
        let mut st = self.0.lock();
        st.receiving = st.receiving.wrapping_add_signed(d);
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.__receiving(1);
        rt::block_ref("recv", || self.__ready());
        self.__receiving(-1);
        self.__take()
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::point("try_recv");
        let mut st = self.0.lock();
        match st.q.pop_front() {
            Some((_, v)) => Ok(v),
            None if st.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        rt::sleep("recv_timeout", d.as_millis() as u64);
        self.try_recv().map_err(|e| match e {
            TryRecvError::Empty => RecvTimeoutError::Timeout,
            TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
        })
    }
    pub fn recv_deadline(&self, d: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(d.saturating_duration_since(Instant::now()))
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn len(&self) -> usize {
        rt::point("len");
        let st = self.0.lock();
        if st.cap == Some(0) {
            0
        } else {
            st.q.len()
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.lock().cap
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.lock().receivers += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.lock().receivers -= 1;
        rt::point("drop receiver");
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        Iter(self)
    }
}

#[doc(hidden)]
pub trait __Ready: Sync {
    fn ready(&self) -> bool;
    fn receiving(&self, d: isize);
}
impl<T: Send> __Ready for Receiver<T> {
    fn ready(&self) -> bool {
        self.__ready()
    }
    fn receiving(&self, d: isize) {
        self.__receiving(d)
    }
}

/// The index of the arm that fires; `None` is the default arm.
#[doc(hidden)]
pub fn __select(arms: &[&dyn __Ready], biased: bool, default: Option<u64>) -> Option<usize> {
    match default {
        None => {
            arms.iter().for_each(|a| a.receiving(1));
            rt::block_ref("select", || arms.iter().any(|a| a.ready()));
            arms.iter().for_each(|a| a.receiving(-1));
        }
        Some(0) => rt::point("select default"),
        Some(ms) => rt::sleep("select timeout", ms),
    }
    let ready: Vec<usize> = (0..arms.len()).filter(|&i| arms[i].ready()).collect();
    match ready.len() {
        0 => None,
        1 => Some(ready[0]),
        _ if biased => Some(ready[0]),
        n => Some(ready[rt::choose("select arm", n)]),
    }
}

#[macro_export]
macro_rules! select_biased {
    ($($t:tt)*) => { $crate::__arms!(true [] [] $($t)*) };
}
#[macro_export]
macro_rules! select {
    ($($t:tt)*) => { $crate::__arms!(false [] [] $($t)*) };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __arms {
    ($b:tt [$($a:tt)*] [$($d:tt)*] , $($rest:tt)*) => { $crate::__arms!($b [$($a)*] [$($d)*] $($rest)*) };
    ($b:tt [$($a:tt)*] [$($d:tt)*] recv($rx:expr) -> $p:pat => $body:block $($rest:tt)*) => {
        $crate::__arms!($b [$($a)* {($rx) ($p) ($body)}] [$($d)*] $($rest)*)
    };
    ($b:tt [$($a:tt)*] [$($d:tt)*] recv($rx:expr) -> $p:pat => $body:expr, $($rest:tt)*) => {
        $crate::__arms!($b [$($a)* {($rx) ($p) ($body)}] [$($d)*] $($rest)*)
    };
    ($b:tt [$($a:tt)*] [$($d:tt)*] recv($rx:expr) -> $p:pat => $body:expr) => {
        $crate::__arms!($b [$($a)* {($rx) ($p) ($body)}] [$($d)*])
    };
    ($b:tt [$($a:tt)*] [] default => $body:expr, $($rest:tt)*) => {
        $crate::__arms!($b [$($a)*] [(0) ($body)] $($rest)*)
    };
    ($b:tt [$($a:tt)*] [] default => $body:expr) => {
        $crate::__arms!($b [$($a)*] [(0) ($body)])
    };
    ($b:tt [$($a:tt)*] [] default($t:expr) => $body:expr, $($rest:tt)*) => {
        $crate::__arms!($b [$($a)*] [(::std::time::Duration::as_millis(&$t) as u64) ($body)] $($rest)*)
    };
    ($b:tt [$($a:tt)*] [] default($t:expr) => $body:expr) => {
        $crate::__arms!($b [$($a)*] [(::std::time::Duration::as_millis(&$t) as u64) ($body)])
    };
    ($b:tt [$({($rx:expr) ($p:pat) ($body:expr)})*] []) => {
        'mc_select: {
            let __sel = $crate::__select(&[$(&($rx) as &dyn $crate::__Ready),*], $b, None);
            let mut __n = 0usize;
            $(
                if __sel == Some(__n) {
                    let $p = ($rx).__take();
                    break 'mc_select ($body);
                }
                __n += 1;
            )*
            let _ = __n;
            unreachable!()
        }
    };
    ($b:tt [$({($rx:expr) ($p:pat) ($body:expr)})*] [($t:expr) ($dbody:expr)]) => {
        'mc_select: {
            let __sel = $crate::__select(&[$(&($rx) as &dyn $crate::__Ready),*], $b, Some($t));
            let mut __n = 0usize;
            $(
                if __sel == Some(__n) {
                    let $p = ($rx).__take();
                    break 'mc_select ($body);
                }
                __n += 1;
            )*
            let _ = __n;
            $dbody
        }
    };
}
