use crate::task::JoinHandle;
use simcore::{alloc, sched};
use std::cell::Cell;
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
thread_local! {
    /// Depth of entered runtime contexts, and whether this thread is driving a runtime right now.
    static CTX: Cell<usize> = const { Cell::new(0) };
    static DRIVING: Cell<bool> = const { Cell::new(false) };
}
pub(crate) fn enter_worker() {
    CTX.with(|c| c.set(c.get() + 1));
    DRIVING.with(|d| d.set(true));
}
#[derive(Debug)]
pub struct Runtime {
    _p: (),
}
#[derive(Clone, Debug)]
pub struct Handle {
    _p: (),
}
#[derive(Debug)]
pub struct TryCurrentError;
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    }
}
impl std::error::Error for TryCurrentError {}
pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);
impl Drop for EnterGuard<'_> {
    fn drop(&mut self) {
        CTX.with(|c| c.set(c.get() - 1));
    }
}
fn enter<'a>() -> EnterGuard<'a> {
    CTX.with(|c| c.set(c.get() + 1));
    EnterGuard(std::marker::PhantomData)
}
struct Parker(AtomicBool);
impl Wake for Parker {
    fn wake(self: Arc<Self>) {
        alloc::outside(|| {
            self.0.store(true, SeqCst);
            sched::wake_key(Arc::as_ptr(&self) as usize, usize::MAX);
        })
    }
}
fn block_on<F: Future>(fut: F) -> F::Output {
    if DRIVING.with(|d| d.get()) {
        panic!("Cannot start a runtime from within a runtime. This happens because a function (like `block_on`) attempted to block the current thread while the thread is being used to drive asynchronous tasks.");
    }
    struct Undo;
    impl Drop for Undo {
        fn drop(&mut self) {
            DRIVING.with(|d| d.set(false));
        }
    }
    DRIVING.with(|d| d.set(true));
    let _u = Undo;
    let _g = enter();
    let parker = alloc::outside(|| Arc::new(Parker(AtomicBool::new(false))));
    let waker = alloc::outside(|| Waker::from(parker.clone()));
    let mut cx = Context::from_waker(&waker);
    let mut fut = std::pin::pin!(fut);
    loop {
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return v;
        }
        alloc::outside(|| {
            while !parker.0.swap(false, SeqCst) {
                sched::block_on_key(Arc::as_ptr(&parker) as usize, false);
            }
        })
    }
}
impl Runtime {
    pub fn new() -> std::io::Result<Runtime> {
        Ok(Runtime { _p: () })
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn_inner(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_inner(async move { f() })
    }
    pub fn handle(&self) -> &Handle {
        static H: Handle = Handle { _p: () };
        &H
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        enter()
    }
    pub fn shutdown_background(self) {}
    pub fn shutdown_timeout(self, _d: std::time::Duration) {}
}
impl Handle {
    #[track_caller]
    pub fn current() -> Handle {
        match Self::try_current() {
            Ok(h) => h,
            Err(e) => panic!("{e}"),
        }
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        if CTX.with(|c| c.get()) > 0 {
            Ok(Handle { _p: () })
        } else {
            Err(TryCurrentError)
        }
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn_inner(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_inner(async move { f() })
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        enter()
    }
}
pub struct Builder {
    _p: (),
}
impl Builder {
    pub fn new_multi_thread() -> Builder {
        Builder { _p: () }
    }
    pub fn new_current_thread() -> Builder {
        Builder { _p: () }
    }
    pub fn worker_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> std::io::Result<Runtime> {
        Runtime::new()
    }
}
