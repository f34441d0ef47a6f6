//! The standard library with its threads and synchronisation primitives put
//! under the controlled scheduler. Crates get it as `std`, so that their
//! sources are compiled as they are.

pub use ::std::*;

pub mod sync {
    pub use super::mcsync::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, OnceState, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };
    pub use ::std::sync::*;

    pub mod atomic {
        pub use super::super::mcatomic::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16,
            AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use ::std::sync::atomic::*;
    }

    pub mod mpsc {
        pub use super::super::mcmpsc::*;
        pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    }
}

pub mod thread {
    pub use super::mcthread::{current_id, scope, sleep, spawn, yield_now, Builder, JoinHandle, Scope, ScopedJoinHandle};
    pub use ::std::thread::*;
}

pub mod io {
    pub use super::mcio::{stdin, stdout, Stdin, StdinLock, Stdout, StdoutLock};
    pub use ::std::io::*;
}

mod mcatomic;
mod mcio;
mod mcmpsc;
mod mcsync;
mod mcthread;
