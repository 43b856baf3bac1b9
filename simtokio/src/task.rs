use simcore::{alloc, sched};
use std::any::Any;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// Why a task did not produce a value.
pub struct JoinError {
    panic: Option<Mutex<Box<dyn Any + Send + 'static>>>,
    id: u64,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.panic.expect("`JoinError` reason is not a panic.").into_inner().unwrap()
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        if self.is_panic() {
            Ok(self.into_panic())
        } else {
            Err(self)
        }
    }
    pub fn id(&self) -> Id {
        Id(self.id)
    }
}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinError::{}(Id({}))", if self.is_panic() { "Panic" } else { "Cancelled" }, self.id)
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "task {} {}", self.id, if self.is_panic() { "panicked" } else { "was cancelled" })
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Id(u64);

/// Only the thread holding the simulator's token touches this.
struct Solo<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Solo<T> {}
struct Queue {
    ready: VecDeque<Arc<Task>>,
    workers: usize,
    started: usize,
    idle: usize,
    next_id: u64,
    live: u64,
    spawned: u64,
}
static QUEUE: Solo<Option<Queue>> = Solo(UnsafeCell::new(None));
static QUEUE_KEY: u8 = 0;
static mut WORKERS: usize = 2;
/// Number of simulated worker threads (set before the first task is spawned).
pub fn sim_set_workers(n: usize) {
    unsafe { WORKERS = n.max(1) }
}
/// Tasks spawned so far, and tasks not yet finished.
pub fn sim_stats() -> (u64, u64) {
    let q = queue();
    (q.spawned, q.live)
}
#[allow(clippy::mut_from_ref)]
fn queue() -> &'static mut Queue {
    let q = unsafe { &mut *QUEUE.0.get() };
    q.get_or_insert_with(|| Queue { ready: VecDeque::new(), workers: unsafe { WORKERS }, started: 0, idle: 0, next_id: 1, live: 0, spawned: 0 })
}
type Erased = Pin<Box<dyn Future<Output = ()> + Send>>;
struct Task {
    /// None once finished (the future is dropped as soon as it completes or is cancelled).
    fut: Solo<Option<Erased>>,
    st: Solo<TaskState>,
}
#[derive(Default)]
struct TaskState {
    queued: bool,
    running: bool,
    notified: bool,
    aborted: bool,
    finished: bool,
}
impl Task {
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut TaskState {
        unsafe { &mut *self.st.0.get() }
    }
}
impl Wake for Task {
    fn wake(self: Arc<Self>) {
        alloc::outside(|| {
            let st = self.st();
            if st.finished || st.queued {
                return;
            }
            if st.running {
                st.notified = true;
                return;
            }
            enqueue(self.clone());
        })
    }
}
fn enqueue(t: Arc<Task>) {
    t.st().queued = true;
    let q = queue();
    q.ready.push_back(t);
    if q.idle == 0 && q.started < q.workers {
        q.started += 1;
        sched::spawn(worker);
    }
    sched::wake_key(&QUEUE_KEY as *const u8 as usize, 1);
}
fn worker() {
    crate::runtime::enter_worker();
    loop {
        let q = queue();
        if q.ready.is_empty() {
            q.idle += 1;
            sched::block_on_key(&QUEUE_KEY as *const u8 as usize, false);
            queue().idle -= 1;
            continue;
        }
        let i = sched::choose(q.ready.len() as u64, 2) as usize;
        let t = q.ready.remove(i).unwrap();
        sched::yield_point(3);
        run_task(t);
    }
}
fn run_task(t: Arc<Task>) {
    let st = t.st();
    st.queued = false;
    if st.finished {
        return;
    }
    st.running = true;
    st.notified = false;
    let fut = unsafe { &mut *t.fut.0.get() };
    let waker = Waker::from(t.clone());
    let mut cx = Context::from_waker(&waker);
    let done = if t.st().aborted {
        true
    } else {
        match fut {
            Some(f) => f.as_mut().poll(&mut cx).is_ready(),
            None => true,
        }
    };
    let st = t.st();
    st.running = false;
    if done {
        st.finished = true;
        // The future (and with it the result slot's sender side) is dropped here.
        let f = unsafe { (*t.fut.0.get()).take() };
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || alloc::inside(move || drop(f))));
        queue().live -= 1;
    } else if st.notified {
        enqueue(t.clone());
    }
}
struct Slot<T> {
    val: Solo<Option<Result<T, JoinError>>>,
    waker: Solo<Option<Waker>>,
    done: Solo<bool>,
}
impl<T> Slot<T> {
    fn complete(&self, r: Result<T, JoinError>) {
        alloc::outside(|| unsafe {
            if *self.done.0.get() {
                return;
            }
            *self.done.0.get() = true;
            *self.val.0.get() = Some(r);
            if let Some(w) = (*self.waker.0.get()).take() {
                w.wake();
            }
        })
    }
}
/// Wraps the user's future: catches panics, publishes the result, reports cancellation on drop.
struct Runner<F: Future> {
    fut: Option<F>,
    slot: Arc<Slot<F::Output>>,
    id: u64,
}
impl<F: Future> Future for Runner<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        // Structural pinning of `fut`; the runner lives in a Box and is never moved out of it.
        let this = unsafe { self.get_unchecked_mut() };
        let fut = unsafe { Pin::new_unchecked(this.fut.as_mut().expect("polled after completion")) };
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| alloc::inside(|| fut.poll(cx)))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                drop_caught(&mut this.fut);
                this.slot.complete(Ok(v));
                Poll::Ready(())
            }
            Err(p) => {
                drop_caught(&mut this.fut);
                this.slot.complete(Err(JoinError { panic: Some(Mutex::new(p)), id: this.id }));
                Poll::Ready(())
            }
        }
    }
}
fn drop_caught<F>(f: &mut Option<F>) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| alloc::inside(|| *f = None)));
}
impl<F: Future> Drop for Runner<F> {
    fn drop(&mut self) {
        self.slot.complete(Err(JoinError { panic: None, id: self.id }));
    }
}
/// Handle to a spawned task; dropping it detaches the task.
pub struct JoinHandle<T> {
    slot: Arc<Slot<T>>,
    task: Arc<Task>,
    id: u64,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        abort_task(&self.task);
    }
    pub fn is_finished(&self) -> bool {
        self.task.st().finished
    }
    pub fn id(&self) -> Id {
        Id(self.id)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { task: self.task.clone(), id: self.id }
    }
}
fn abort_task(t: &Arc<Task>) {
    alloc::outside(|| {
        let st = t.st();
        if st.finished {
            return;
        }
        st.aborted = true;
        t.clone().wake();
    })
}
pub struct AbortHandle {
    task: Arc<Task>,
    id: u64,
}
unsafe impl Send for AbortHandle {}
unsafe impl Sync for AbortHandle {}
impl AbortHandle {
    pub fn abort(&self) {
        abort_task(&self.task);
    }
    pub fn is_finished(&self) -> bool {
        self.task.st().finished
    }
    pub fn id(&self) -> Id {
        Id(self.id)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let r = alloc::outside(|| {
            sched::yield_point(4);
            unsafe {
                if let Some(v) = (*self.slot.val.0.get()).take() {
                    return Poll::Ready(v);
                }
                *self.slot.waker.0.get() = Some(cx.waker().clone());
            }
            Poll::Pending
        });
        r
    }
}
pub(crate) fn spawn_inner<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    alloc::outside(|| {
        let id = {
            let q = queue();
            q.next_id += 1;
            q.live += 1;
            q.spawned += 1;
            q.next_id
        };
        let slot = Arc::new(Slot { val: Solo(UnsafeCell::new(None)), waker: Solo(UnsafeCell::new(None)), done: Solo(UnsafeCell::new(false)) });
        // A Slot is only ever touched under the token.
        struct AssertSend<T>(T);
        unsafe impl<T> Send for AssertSend<T> {}
        impl<F: Future<Output = ()>> Future for AssertSend<F> {
            type Output = ();
            fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
                unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
            }
        }
        let runner = AssertSend(Runner { fut: Some(fut), slot: slot.clone(), id });
        let task = Arc::new(Task { fut: Solo(UnsafeCell::new(Some(Box::pin(runner)))), st: Solo(UnsafeCell::new(TaskState::default())) });
        enqueue(task.clone());
        sched::yield_point(5);
        JoinHandle { slot, task, id }
    })
}
unsafe impl Send for Task {}
unsafe impl Sync for Task {}
/// Spawns a task onto the current runtime.
#[track_caller]
pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    crate::runtime::Handle::current();
    spawn_inner(fut)
}
/// Runs a closure where blocking is acceptable (here: as one more task).
#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    crate::runtime::Handle::current();
    spawn_inner(async move { f() })
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}
/// Yields once to the scheduler.
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}
/// A set of tasks joined in completion order.
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { handles: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
    pub fn detach_all(&mut self) {
        self.handles.clear();
    }
}
impl<T: Send + 'static> JoinSet<T> {
    #[track_caller]
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    #[track_caller]
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
    {
        let h = spawn_blocking(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.handles.is_empty() {
                return Poll::Ready(None);
            }
            // Completion order is the scheduler's: start looking at a chosen place.
            let n = self.handles.len();
            let s = alloc::outside(|| sched::choose(n as u64, 6)) as usize;
            for k in 0..n {
                let i = (s + k) % n;
                if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                    self.handles.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut v = Vec::new();
        while let Some(r) = self.join_next().await {
            match r {
                Ok(x) => v.push(x),
                Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
                Err(e) => panic!("{e}"),
            }
        }
        v
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
}
