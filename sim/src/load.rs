//! Calls of the library, with what they return in a comparable form.
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use simcore::{alloc, log, sched};
use std::future::Future;
use std::pin::Pin;
use simcore::rng::Rng;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tmf::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Api {
    Sync,
    SyncOne,
    Async,
    AsyncOne,
}
pub const APIS: [Api; 4] = [Api::Sync, Api::Async, Api::SyncOne, Api::AsyncOne];
#[derive(Clone, PartialEq)]
pub enum Out {
    Meshes(Vec<Snap>),
    /// Kind of the error, as text; I/O errors with their kind.
    Error(String),
    Panic(String),
    /// The stream's own panic came through.
    StreamPanic,
}
impl Out {
    pub fn short(&self) -> String {
        match self {
            Out::Meshes(m) => format!("{} meshes", m.len()),
            Out::Error(e) => format!("error {e}"),
            Out::Panic(p) => format!("panic {p}"),
            Out::StreamPanic => "stream panic".into(),
        }
    }
    pub fn differs(&self, o: &Out) -> Option<String> {
        match (self, o) {
            (Out::Meshes(a), Out::Meshes(b)) => diff_all(a, b),
            _ if self == o => None,
            _ => Some(format!("{}, then {}", self.short(), o.short())),
        }
    }
}
pub fn error_kind(e: &TMFImportError) -> String {
    match e {
        TMFImportError::IO(e) => format!("IO({:?})", e.kind()),
        e => format!("{e:?}"),
    }
}
pub type Raw = Result<Vec<(TMFMesh, String)>, TMFImportError>;
struct Unpark(AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        alloc::outside(|| {
            self.0.store(true, SeqCst);
            sched::wake_key(Arc::as_ptr(&self) as usize, usize::MAX);
        })
    }
}
/// What executors may do to a future: poll it unasked, with another waker every time, on another thread
/// every time. Bits of 1: fresh wakers, 2: unasked polls, 4: threads change.
static STYLE: AtomicU64 = AtomicU64::new(0);
static DRIVERS: AtomicU64 = AtomicU64::new(0);
/// A future being driven by the harness: like any executor's thread, but able to give up.
pub struct Driver<F: Future> {
    fut: Option<Pin<Box<F>>>,
    unpark: Arc<Unpark>,
    pub polls: u64,
    style: u64,
    rng: Rng,
}
struct Carried<T>(T);
unsafe impl<T> Send for Carried<T> {}
/// Runs it on another simulated thread, which is waited for.
fn elsewhere<R>(f: impl FnOnce() -> R) -> R {
    cnt("migrations");
    let mut out: Option<R> = None;
    let run: Box<dyn FnOnce() + '_> = Box::new(|| out = Some(f()));
    // Nothing borrowed outlives the call: the thread is joined here.
    let run: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(run) };
    let run = Carried(run);
    joined(sched::spawn(move || {
        let run = run;
        (run.0)()
    }));
    out.expect("ran")
}
pub fn in_runtime<R>(f: impl FnOnce() -> R) -> R {
    #[cfg(feature = "full")]
    {
        let rt = tokio::runtime::Runtime::new().unwrap();
        let _g = rt.enter();
        f()
    }
    #[cfg(not(feature = "full"))]
    f()
}
impl<F: Future> Driver<F> {
    pub fn new(f: F) -> Self {
        let style = STYLE.load(SeqCst);
        let rng = Rng::new(style ^ DRIVERS.fetch_add(1, SeqCst));
        Driver { fut: Some(Box::pin(f)), unpark: Arc::new(Unpark(AtomicBool::new(false))), polls: 0, style, rng }
    }
    pub fn poll(&mut self) -> Result<Poll<F::Output>, Panicked> {
        self.polls += 1;
        if self.style & 1 != 0 {
            self.unpark = Arc::new(Unpark(AtomicBool::new(false)));
        }
        let w = Waker::from(self.unpark.clone());
        let mut cx = Context::from_waker(&w);
        let fut = self.fut.as_mut().expect("future given up");
        let mut go = || in_runtime(|| lib(|| fut.as_mut().poll(&mut cx)));
        if self.style & 4 != 0 && self.rng.chance(1, 2) {
            elsewhere(go)
        } else {
            go()
        }
    }
    /// Waits until the future asked to be polled again.
    pub fn wait(&mut self) {
        while !self.unpark.0.swap(false, SeqCst) {
            sched::block_on_key(Arc::as_ptr(&self.unpark) as usize, false);
        }
    }
    pub fn give_up(&mut self) -> Result<(), Panicked> {
        let f = self.fut.take();
        let go = || in_runtime(|| lib(|| drop(f)));
        if self.style & 4 != 0 && self.rng.chance(1, 2) {
            elsewhere(go)
        } else {
            go()
        }
    }
    pub fn run(mut self) -> Result<F::Output, Panicked> {
        loop {
            match self.poll()? {
                Poll::Ready(v) => {
                    self.give_up()?;
                    return Ok(v);
                }
                Poll::Pending if self.style & 2 != 0 && self.rng.chance(1, 2) => cnt("unasked_polls"),
                Poll::Pending => self.wait(),
            }
        }
    }
}
pub fn load_raw(api: Api, src: &mut Source) -> Result<Raw, Panicked> {
    cnt("loads");
    match api {
        Api::Sync => cnt("sync_loads"),
        Api::Async => cnt("async_loads"),
        _ => cnt("one_loads"),
    }
    match api {
        Api::Sync => lib(|| TMFMesh::read_tmf(src)),
        Api::SyncOne => lib(|| TMFMesh::read_tmf_one(src).map(|m| vec![m])),
        Api::Async => Driver::new(TMFMesh::read_tmf_async(src)).run(),
        Api::AsyncOne => Driver::new(async { TMFMesh::read_tmf_one_async(src).await.map(|m| vec![m]) }).run(),
    }
}
pub fn classify(r: Result<Raw, Panicked>) -> Out {
    match r {
        Ok(Ok(v)) => Out::Meshes(snaps(&v)),
        Ok(Err(e)) => {
            cnt("load_errors");
            Out::Error(error_kind(&e))
        }
        Err(p) if p.injected => Out::StreamPanic,
        Err(p) => Out::Panic(p.msg),
    }
}
pub fn load(api: Api, src: &mut Source) -> Out {
    let o = classify(load_raw(api, src));
    log!("load {api:?}: {}", o.short());
    o
}
pub fn load_plain(bytes: &Arc<Vec<u8>>) -> Out {
    load(Api::Sync, &mut Source::plain(bytes))
}
/// Loads what must load: meshes or the end of the run.
pub fn must_load(api: Api, src: &mut Source, what: &str) -> Vec<(TMFMesh, String)> {
    match load_raw(api, src) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => fail("load_error", format!("{what}: {}", error_kind(&e))),
        Err(p) => fail("panic", format!("{what}: loading panicked: {}", p.msg)),
    }
}
pub fn save_raw(meshes: &[(TMFMesh, String)], p: &PrecSpec, sink: &mut Sink) -> Result<Result<(), TMFExportError>, Panicked> {
    cnt("saves");
    let prec = p.build();
    match meshes {
        // A single mesh, half of the time through the call for one.
        [(m, name)] if name.len() % 2 == 1 => lib(|| m.write_tmf_one(sink, &prec, name.as_str())),
        _ => lib(|| TMFMesh::write_tmf(meshes, sink, &prec)),
    }
}
pub fn save_kind(r: &Result<(), TMFExportError>) -> Result<(), String> {
    match r {
        Ok(()) => Ok(()),
        Err(TMFExportError::IO(e)) => Err(format!("IO({:?})", e.kind())),
        #[allow(unreachable_patterns)]
        Err(e) => Err(format!("{e:?}")),
    }
}
/// Saves what must be savable, to a sink without faults.
pub fn must_save(meshes: &[(TMFMesh, String)], p: &PrecSpec, what: &str) -> Arc<Vec<u8>> {
    let mut s = Sink::plain();
    match save_raw(meshes, p, &mut s) {
        Ok(Ok(())) => Arc::new(s.accepted),
        Ok(Err(e)) => fail("save_error", format!("{what}: {e:?}")),
        Err(p) => fail("panic", format!("{what}: saving panicked: {}", p.msg)),
    }
}
pub fn draw_workers(s: &mut simcore::src::Src) {
    let n = s.range(1, 4);
    cnt(["workers_1", "workers_2", "workers_3", "workers_4"][n as usize - 1]);
    #[cfg(feature = "full")]
    tokio::task::sim_set_workers(n as usize);
    log!("{n} workers");
    // How futures are driven.
    let style = if s.chance(1, 3) { s.range(1, 7) } else { 0 };
    if style != 0 {
        let seed = s.seed();
        STYLE.store((seed << 3) | style, SeqCst);
        log!("executor style {style}");
    } else {
        STYLE.store(0, SeqCst);
    }
}
