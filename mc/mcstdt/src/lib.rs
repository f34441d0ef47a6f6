//! [`mcstd`] whose clock is the logical time of the execution, and whose lazy
//! statics belong to the worker and to the execution that use them.

pub use mcstd::*;

pub mod sync {
    pub use super::lazy::LazyLock;
    pub use mcstd::sync::*;
}
mod lazy;
pub use lazy::reset_statics;

pub mod time {
    pub use ::std::time::*;

    use mccore::rt as mc;
    use ::std::ops::{Add, Sub};

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(Duration::from_millis(if mc::active() { mc::now() } else { 0 }))
        }
        pub fn elapsed(&self) -> Duration {
            Self::now() - *self
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
    impl Sub for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, o: Duration) -> Instant {
            Instant(self.0 - o)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, o: Duration) -> Instant {
            Instant(self.0 + o)
        }
    }
}
