use ::std::any::Any;
use ::std::cell::RefCell;
use ::std::collections::HashMap;
use ::std::fmt;
use ::std::ops::Deref;

type Values = HashMap<usize, &'static (dyn Any + Send + Sync)>;
thread_local!(static VALUES: RefCell<Values> = RefCell::default());

/// Every lazy static is initialised anew from here on, in this worker.
pub fn reset_statics() {
    // Threads of the last execution may hold references.
    VALUES.with(|v| ::std::mem::take(&mut *v.borrow_mut()));
}

/// A `LazyLock` for statics. Its initialisation is one step.
pub struct LazyLock<T, F = fn() -> T> {
    init: F,
    _t: ::std::marker::PhantomData<fn() -> T>,
}
impl<T, F> LazyLock<T, F> {
    pub const fn new(init: F) -> Self {
        LazyLock { init, _t: ::std::marker::PhantomData }
    }
}
impl<T: Send + Sync + 'static, F: Fn() -> T> LazyLock<T, F> {
    pub fn force(this: &Self) -> &T {
        let key = this as *const Self as *const () as usize;
        let v = VALUES.with(|v| v.borrow().get(&key).copied());
        let v = v.unwrap_or_else(|| {
            let made: &'static (dyn Any + Send + Sync) = Box::leak(Box::new((this.init)()));
            VALUES.with(|v| *v.borrow_mut().entry(key).or_insert(made))
        });
        v.downcast_ref().expect("the value of a lazy static")
    }
}
impl<T: Send + Sync + 'static, F: Fn() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
impl<T, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("LazyLock { .. }")
    }
}
