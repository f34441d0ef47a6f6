use super::mcsync::Mutex;
use ::std::collections::VecDeque;
use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::sync::Arc;
use mccore::rt;

struct Chan<T> {
    q: ::std::sync::Mutex<(VecDeque<T>, usize, bool, usize)>,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
#[allow(dead_code)]
type Unused = Mutex<()>;

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        q: ::std::sync::Mutex::new((VecDeque::new(), 1, true, usize::MAX)),
    });
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        q: ::std::sync::Mutex::new((VecDeque::new(), 1, true, cap.max(1))),
    });
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Chan<T> {
    fn send(&self, v: T) -> Result<(), SendError<T>> {
        rt::block_ref("mpsc send", || {
            let q = self.q.lock().unwrap();
            !q.2 || q.0.len() < q.3
        });
        let mut q = self.q.lock().unwrap();
        if !q.2 {
            return Err(SendError(v));
        }
        q.0.push_back(v);
        Ok(())
    }
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> $n<T> {
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                self.0.send(v)
            }
        }
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.q.lock().unwrap().1 += 1;
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.0.q.lock().unwrap().1 -= 1;
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        rt::point("mpsc try_send");
        let mut q = self.0.q.lock().unwrap();
        if !q.2 {
            return Err(TrySendError::Disconnected(v));
        }
        if q.0.len() >= q.3 {
            return Err(TrySendError::Full(v));
        }
        q.0.push_back(v);
        Ok(())
    }
}
unsafe impl<T: Send> Send for Receiver<T> {}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        rt::block_ref("mpsc recv", || {
            let q = self.0.q.lock().unwrap();
            !q.0.is_empty() || q.1 == 0
        });
        self.0.q.lock().unwrap().0.pop_front().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::point("mpsc try_recv");
        let mut q = self.0.q.lock().unwrap();
        let d = q.1 == 0;
        q.0.pop_front()
            .ok_or(if d { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    pub fn recv_timeout(&self, d: ::std::time::Duration) -> Result<T, RecvTimeoutError> {
        rt::sleep("mpsc recv_timeout", d.as_millis() as u64);
        self.try_recv().map_err(|e| match e {
            TryRecvError::Empty => RecvTimeoutError::Timeout,
            TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
        })
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(|| self.try_recv().ok())
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(|| self.recv().ok())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.q.lock().unwrap().2 = false;
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
