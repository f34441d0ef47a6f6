//! `tokio` whose tasks are model threads of the controlled scheduler.
pub use real_tokio::*;

use mccore::rt as mc;

pub use task::spawn;

pub mod task {
    use super::mc;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    struct Shared<T> {
        res: Option<Result<T, JoinError>>,
        waker: Option<Waker>,
    }
    pub struct JoinHandle<T>(Arc<Mutex<Shared<T>>>);
    #[derive(Debug)]
    pub struct JoinError(pub String);
    impl JoinError {
        pub fn is_panic(&self) -> bool {
            true
        }
        pub fn is_cancelled(&self) -> bool {
            false
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for JoinError {}
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {}
        pub fn is_finished(&self) -> bool {
            self.0.lock().unwrap().res.is_some()
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.0.lock().unwrap();
            match s.res.take() {
                Some(r) => Poll::Ready(r),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    struct Done<T>(Arc<Mutex<Shared<T>>>);
    impl<T> Done<T> {
        fn set(&self, r: Result<T, JoinError>) {
            let w = {
                let mut s = self.0.lock().unwrap();
                s.res = Some(r);
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        }
    }
    impl<T> Drop for Done<T> {
        fn drop(&mut self) {
            let unset = self.0.lock().unwrap().res.is_none() && std::thread::panicking();
            if unset {
                self.set(Err(JoinError("task panicked".into())));
            }
        }
    }
    fn start<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
        let s = Arc::new(Mutex::new(Shared {
            res: None,
            waker: None,
        }));
        let d = Done(s.clone());
        mc::spawn_daemon("task", move || {
            let v = f();
            d.set(Ok(v));
        });
        JoinHandle(s)
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        start(move || mc::block_on(f))
    }
    pub fn spawn_blocking<T: Send + 'static>(
        f: impl FnOnce() -> T + Send + 'static,
    ) -> JoinHandle<T> {
        start(f)
    }
    pub async fn yield_now() {
        mc::point("yield_now");
    }
    pub fn block_in_place<T>(f: impl FnOnce() -> T) -> T {
        f()
    }
}

pub mod runtime {
    use super::mc;
    use super::task::JoinHandle;
    use std::future::Future;

    #[derive(Debug, Clone, Default)]
    pub struct Handle(());
    impl Handle {
        pub fn mc() -> Self {
            Handle(())
        }
        pub fn current() -> Self {
            Handle(())
        }
        pub fn try_current() -> Result<Self, std::fmt::Error> {
            Ok(Handle(()))
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            super::task::spawn(f)
        }
        pub fn spawn_blocking<T: Send + 'static>(
            &self,
            f: impl FnOnce() -> T + Send + 'static,
        ) -> JoinHandle<T> {
            super::task::spawn_blocking(f)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            mc::block_on(f)
        }
        pub fn enter(&self) -> EnterGuard {
            EnterGuard(())
        }
    }
    pub struct EnterGuard(());
}

pub mod time {
    use super::mc;
    pub use real_tokio::time::*;
    pub async fn sleep(d: Duration) {
        mc::SleepFuture::new(d.as_millis() as u64).await
    }
    use std::future::Future;
    pub async fn timeout<F: std::future::Future>(d: Duration, f: F) -> Result<F::Output, Elapsed> {
        let mut f = std::pin::pin!(f);
        let mut s = std::pin::pin!(sleep(d));
        std::future::poll_fn(|cx| {
            if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) {
                return std::task::Poll::Ready(Ok(v));
            }
            s.as_mut().poll(cx).map(|_| Err(Elapsed(())))
        })
        .await
    }
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub mod sync {
    pub use real_tokio::sync::*;

    pub mod mpsc {
        use super::super::mc;
        use std::collections::VecDeque;
        use std::fmt;
        use std::sync::{Arc, Mutex};
        use std::task::{Context, Poll, Waker};

        pub mod error {
            pub use real_tokio::sync::mpsc::error::{SendError, TryRecvError};
        }

        struct Chan<T> {
            queue: VecDeque<T>,
            senders: usize,
            open: bool,
            waker: Option<Waker>,
        }
        type Shared<T> = Arc<Mutex<Chan<T>>>;

        pub struct UnboundedSender<T>(Shared<T>);
        pub struct UnboundedReceiver<T>(Shared<T>);

        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let c = Arc::new(Mutex::new(Chan { queue: VecDeque::new(), senders: 1, open: true, waker: None }));
            (UnboundedSender(c.clone()), UnboundedReceiver(c))
        }

        impl<T> fmt::Debug for UnboundedSender<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("UnboundedSender")
            }
        }
        impl<T> fmt::Debug for UnboundedReceiver<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("UnboundedReceiver")
            }
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                self.0.lock().unwrap().senders += 1;
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Drop for UnboundedSender<T> {
            fn drop(&mut self) {
                let w = {
                    let mut c = self.0.lock().unwrap();
                    c.senders -= 1;
                    if c.senders == 0 {
                        c.waker.take()
                    } else {
                        None
                    }
                };
                if let Some(w) = w {
                    w.wake();
                }
            }
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
                if mc::active() {
                    mc::point("mpsc.send");
                }
                let w = {
                    let mut c = self.0.lock().unwrap();
                    if !c.open {
                        return Err(error::SendError(v));
                    }
                    c.queue.push_back(v);
                    c.waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
                Ok(())
            }
            pub fn is_closed(&self) -> bool {
                !self.0.lock().unwrap().open
            }
        }
        impl<T> UnboundedReceiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                if mc::active() {
                    mc::point("mpsc.recv");
                }
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                let mut c = self.0.lock().unwrap();
                match c.queue.pop_front() {
                    Some(v) => Poll::Ready(Some(v)),
                    None if c.senders == 0 || !c.open => Poll::Ready(None),
                    None => {
                        c.waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                let mut c = self.0.lock().unwrap();
                match c.queue.pop_front() {
                    Some(v) => Ok(v),
                    None if c.senders == 0 => Err(error::TryRecvError::Disconnected),
                    None => Err(error::TryRecvError::Empty),
                }
            }
            pub fn blocking_recv(&mut self) -> Option<T> {
                mc::block_on(self.recv())
            }
            pub fn len(&self) -> usize {
                self.0.lock().unwrap().queue.len()
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn close(&mut self) {
                self.0.lock().unwrap().open = false;
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                let old = {
                    let mut c = self.0.lock().unwrap();
                    c.open = false;
                    std::mem::take(&mut c.queue)
                };
                drop(old);
            }
        }
    }
}

#[doc(hidden)]
pub mod selecting {
    pub enum Sel<A, B, C, D> {
        A(A),
        B(B),
        C(C),
        D(D),
        None,
    }
    /// Which branch is asked first.
    pub fn first(n: usize) -> usize {
        if super::mc::active() {
            super::mc::deviate("select", n)
        } else {
            0
        }
    }
}

/// `tokio::select!` of up to four branches; which one is asked first is a
/// decision of the explorer.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::select!($($t)*) };
    ($p0:pat = $e0:expr => $h0:expr $(,)?) => {
        $crate::select!(@go [$p0 = $e0 => $h0] [_never = ::std::future::pending::<()>() => unreachable!()] [_never = ::std::future::pending::<()>() => unreachable!()] [_never = ::std::future::pending::<()>() => unreachable!()] 1)
    };
    ($p0:pat = $e0:expr => $h0:expr, $p1:pat = $e1:expr => $h1:expr $(,)?) => {
        $crate::select!(@go [$p0 = $e0 => $h0] [$p1 = $e1 => $h1] [_never = ::std::future::pending::<()>() => unreachable!()] [_never = ::std::future::pending::<()>() => unreachable!()] 2)
    };
    ($p0:pat = $e0:expr => $h0:expr, $p1:pat = $e1:expr => $h1:expr, $p2:pat = $e2:expr => $h2:expr $(,)?) => {
        $crate::select!(@go [$p0 = $e0 => $h0] [$p1 = $e1 => $h1] [$p2 = $e2 => $h2] [_never = ::std::future::pending::<()>() => unreachable!()] 3)
    };
    ($p0:pat = $e0:expr => $h0:expr, $p1:pat = $e1:expr => $h1:expr, $p2:pat = $e2:expr => $h2:expr, $p3:pat = $e3:expr => $h3:expr $(,)?) => {
        $crate::select!(@go [$p0 = $e0 => $h0] [$p1 = $e1 => $h1] [$p2 = $e2 => $h2] [$p3 = $e3 => $h3] 4)
    };
    (@go [$p0:pat = $e0:expr => $h0:expr] [$p1:pat = $e1:expr => $h1:expr] [$p2:pat = $e2:expr => $h2:expr] [$p3:pat = $e3:expr => $h3:expr] $n:expr) => {{
        use $crate::selecting::Sel;
        let __out = {
            let mut f0 = ::std::pin::pin!($e0);
            let mut f1 = ::std::pin::pin!($e1);
            let mut f2 = ::std::pin::pin!($e2);
            let mut f3 = ::std::pin::pin!($e3);
            let mut off = [false; 4];
            ::std::future::poll_fn(move |cx| {
                use ::std::future::Future;
                use ::std::task::Poll;
                let start = $crate::selecting::first($n);
                for k in 0..$n {
                    let i = (start + k) % $n;
                    if off[i] {
                        continue;
                    }
                    match i {
                        0 => if let Poll::Ready(v) = f0.as_mut().poll(cx) {
                            #[allow(unused_variables, unreachable_patterns)]
                            match &v { $p0 => return Poll::Ready(Sel::A(v)), _ => off[0] = true }
                        },
                        1 => if let Poll::Ready(v) = f1.as_mut().poll(cx) {
                            #[allow(unused_variables, unreachable_patterns)]
                            match &v { $p1 => return Poll::Ready(Sel::B(v)), _ => off[1] = true }
                        },
                        2 => if let Poll::Ready(v) = f2.as_mut().poll(cx) {
                            #[allow(unused_variables, unreachable_patterns)]
                            match &v { $p2 => return Poll::Ready(Sel::C(v)), _ => off[2] = true }
                        },
                        _ => if let Poll::Ready(v) = f3.as_mut().poll(cx) {
                            #[allow(unused_variables, unreachable_patterns)]
                            match &v { $p3 => return Poll::Ready(Sel::D(v)), _ => off[3] = true }
                        },
                    }
                }
                if off[..$n].iter().all(|o| *o) {
                    return Poll::Ready(Sel::None);
                }
                Poll::Pending
            })
            .await
        };
        #[allow(unreachable_patterns, unreachable_code)]
        match __out {
            Sel::A($p0) => $h0,
            Sel::B($p1) => $h1,
            Sel::C($p2) => $h2,
            Sel::D($p3) => $h3,
            _ => panic!("all branches are disabled and there is no else branch"),
        }
    }};
}
