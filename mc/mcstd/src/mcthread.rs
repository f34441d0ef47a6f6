use ::std::io;
use ::std::cell::Cell;
use ::std::marker::PhantomData;
use ::std::rc::Rc;
use ::std::sync::Arc;
use ::std::time::Duration;
use mccore::rt;

pub struct JoinHandle<T>(Inner<T>);

enum Inner<T> {
    Model(rt::Join<T>),
    Real(::std::thread::JoinHandle<T>),
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        match self.0 {
            Inner::Model(j) => j.join(),
            Inner::Real(j) => j.join(),
        }
    }

    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Inner::Model(j) => j.is_finished(),
            Inner::Real(j) => j.is_finished(),
        }
    }
}

impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle")
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if rt::active() {
        JoinHandle(Inner::Model(rt::spawn("thread", f)))
    } else {
        JoinHandle(Inner::Real(::std::thread::spawn(f)))
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}

impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, name: String) -> Self {
        self.name = Some(name);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(if rt::active() {
            JoinHandle(Inner::Model(rt::spawn(self.name.unwrap_or("thread".into()), f)))
        } else {
            JoinHandle(Inner::Real(::std::thread::spawn(f)))
        })
    }
}

pub fn sleep(d: Duration) {
    rt::sleep("thread::sleep", d.as_millis() as u64);
}

pub fn yield_now() {
    // A spinning thread waits for the others.
    rt::sleep("thread::yield_now", 1);
}

pub fn current_id() -> usize {
    rt::tid()
}

/// Threads that end before the scope does.
pub struct Scope<'scope, 'env: 'scope> {
    waits: ::std::sync::Mutex<Vec<Rc<Cell<Option<JoinHandle<()>>>>>>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}

pub struct ScopedJoinHandle<'scope, T> {
    handle: Rc<Cell<Option<JoinHandle<()>>>>,
    out: Arc<::std::sync::Mutex<Option<T>>>,
    scope: PhantomData<&'scope ()>,
}

impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        if let Some(h) = self.handle.take() {
            h.join()?;
        }
        Ok(self.out.lock().unwrap().take().unwrap())
    }
}

impl<'scope> Scope<'scope, '_> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let out: Arc<::std::sync::Mutex<Option<T>>> = Arc::default();
        if !rt::active() {
            // Nobody watches: one after the other is as good.
            *out.lock().unwrap() = Some(f());
            return ScopedJoinHandle { handle: Rc::default(), out, scope: PhantomData };
        }
        let o = out.clone();
        let run: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
            let r = f();
            *o.lock().unwrap() = Some(r);
        });
        // SAFETY: the scope waits for the thread, or never ends.
        let run: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(run) };
        let handle = Rc::new(Cell::new(Some(spawn(run))));
        self.waits.lock().unwrap().push(handle.clone());
        ScopedJoinHandle { handle, out, scope: PhantomData }
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { waits: Default::default(), scope: PhantomData, env: PhantomData };
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(&s)));
    let mut failed = false;
    for h in ::std::mem::take(&mut *s.waits.lock().unwrap()) {
        if let Some(h) = h.take() {
            failed |= h.join().is_err();
        }
    }
    match r {
        Ok(_) if failed => panic!("a scoped thread panicked"),
        Ok(r) => r,
        Err(p) => ::std::panic::resume_unwind(p),
    }
}
