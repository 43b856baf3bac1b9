//! Simulated streams: what a disk, pipe or socket does to the bytes of a load or save.
use crate::engine::cnt;
use simcore::rng::Rng;
use simcore::{alloc, log, sched, shm, src::Src};
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

/// Errors a stream may fail with: of a kind with a message, of a bare kind, or what the system calls report.
/// Never `Interrupted`: that one asks for a retry.
enum Fails {
    Msg(ErrorKind),
    Bare(ErrorKind),
    Os(i32),
}
const ERRS: [Fails; 24] = [
    Fails::Msg(ErrorKind::Other),
    Fails::Msg(ErrorKind::ConnectionReset),
    Fails::Bare(ErrorKind::BrokenPipe),
    Fails::Msg(ErrorKind::TimedOut),
    Fails::Bare(ErrorKind::WouldBlock),
    Fails::Msg(ErrorKind::PermissionDenied),
    Fails::Bare(ErrorKind::UnexpectedEof),
    Fails::Msg(ErrorKind::InvalidData),
    Fails::Bare(ErrorKind::StorageFull),
    Fails::Msg(ErrorKind::NotFound),
    // EIO, ENOSPC, EAGAIN, ECONNRESET, ESTALE.
    Fails::Os(5),
    Fails::Os(28),
    Fails::Os(11),
    Fails::Os(104),
    Fails::Os(116),
    Fails::Bare(ErrorKind::ConnectionAborted),
    Fails::Bare(ErrorKind::NotConnected),
    Fails::Bare(ErrorKind::InvalidData),
    Fails::Msg(ErrorKind::InvalidInput),
    Fails::Msg(ErrorKind::UnexpectedEof),
    Fails::Msg(ErrorKind::WriteZero),
    Fails::Bare(ErrorKind::TimedOut),
    Fails::Msg(ErrorKind::OutOfMemory),
    Fails::Msg(ErrorKind::WouldBlock),
];
pub const ERR_COUNT: u64 = ERRS.len() as u64;
pub fn injected(k: usize) -> Error {
    match ERRS[k] {
        Fails::Msg(kind) => Error::new(kind, INJECTED),
        Fails::Bare(kind) => Error::from(kind),
        Fails::Os(n) => Error::from_raw_os_error(n),
    }
}
pub fn kind(k: usize) -> ErrorKind {
    injected(k).kind()
}
#[derive(Clone, Debug)]
pub struct Delivery {
    /// 0: as much as asked for; k > 0: at most k bytes at a time; with `random` 1..=k.
    pub chunk: u64,
    pub random: bool,
    /// Interruptions before a transfer: up to `burst`, with probability `intr`/16.
    pub intr: u64,
    pub burst: u64,
    pub seed: u64,
}
impl Delivery {
    pub const FULL: Delivery = Delivery { chunk: 0, random: false, intr: 0, burst: 0, seed: 0 };
    pub fn draw(s: &mut Src) -> Delivery {
        s.span(|s| {
            let chunk = match s.weighted(&[2, 2, 2, 2, 2]) {
                0 => 0,
                1 => 1,
                2 => s.range(2, 9),
                3 => s.range(10, 100),
                _ => s.range(100, 5000),
            };
            let random = s.chance(1, 2);
            let intr = if s.chance(1, 2) { s.range(1, 8) } else { 0 };
            let burst = match intr {
                0 => 0,
                _ if s.chance(1, 16) => s.range(5, 400),
                _ => s.range(1, 4),
            };
            Delivery { chunk, random, intr, burst, seed: s.seed() }
        })
    }
    /// Cheap for big streams: pieces are never tiny.
    pub fn draw_for(s: &mut Src, len: usize) -> Delivery {
        let mut d = Self::draw(s);
        if len > 20_000 && d.chunk != 0 {
            d.chunk = d.chunk.max(len as u64 / 2000);
        }
        d
    }
    pub fn is_plain(&self) -> bool {
        self.chunk == 0 && self.intr == 0
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    Byte(u64),
    Call(u64),
    /// Only sinks: the n-th flush.
    Flush(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    /// Fails with this kind.
    Kind(usize),
    /// Source: end of data although there is more. Sink: accepts nothing.
    Zero,
    /// The stream's own code panics.
    Panic,
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub at: At,
    pub what: What,
    /// Fails for good, or just once.
    pub sticky: bool,
}
impl Fault {
    pub fn draw_kind(s: &mut Src) -> What {
        What::Kind(s.below(ERR_COUNT) as usize)
    }
    /// A position in a transfer of about `len` bytes.
    pub fn draw_at(s: &mut Src, len: usize) -> At {
        if s.chance(1, 3) {
            At::Call(s.small(60))
        } else if s.chance(1, 3) {
            At::Byte(s.small(len as u64))
        } else {
            At::Byte(s.below(len as u64 + 1))
        }
    }
}
/// What a failing stream reports.
pub const INJECTED: &str = "injected stream failure";
pub struct SimPanic;

#[derive(Default)]
pub struct Stats {
    pub bytes: AtomicU64,
    pub calls: AtomicU64,
    pub fired: AtomicU64,
    pub dropped: AtomicBool,
    pub after_fault: AtomicU64,
}
impl Stats {
    pub fn fired(&self) -> bool {
        self.fired.load(Relaxed) > 0
    }
    pub fn bytes(&self) -> u64 {
        self.bytes.load(Relaxed)
    }
}
struct Pace {
    d: Delivery,
    rng: Rng,
    burst: u64,
    seen: bool,
    /// Long transfers get bigger pieces and fewer interruptions with time: a run has to end.
    moves: u64,
}
impl Pace {
    fn new(d: &Delivery) -> Self {
        Pace { rng: Rng::new(d.seed), d: d.clone(), burst: 0, seen: false, moves: 0 }
    }
    fn interrupted(&mut self) -> bool {
        if self.d.intr == 0 {
            return false;
        }
        if !self.seen {
            self.seen = true;
            if if self.moves < 30_000 { self.rng.chance(self.d.intr, 16) } else { self.rng.chance(1, 4096) } {
                // Long series of interruptions: only early on.
                let most = if self.moves < 3_000 { self.d.burst } else { self.d.burst.min(4) };
                self.burst = 1 + self.rng.below(most);
            }
        }
        if self.burst > 0 {
            self.burst -= 1;
            self.moves += 1;
            return true;
        }
        self.seen = false;
        false
    }
    fn piece(&mut self, want: usize) -> usize {
        self.moves += 1;
        if self.d.chunk == 0 || want == 0 {
            return want;
        }
        let k = if self.d.random { 1 + self.rng.below(self.d.chunk) } else { self.d.chunk };
        want.min((k as usize) << (self.moves / 20_000).min(12))
    }
}
pub struct Source {
    data: Arc<Vec<u8>>,
    pos: usize,
    end: usize,
    pace: Pace,
    fault: Option<Fault>,
    /// Sticky fault in effect.
    broken: bool,
    pub stats: Arc<Stats>,
    id: u64,
}
impl Source {
    pub fn new(data: &Arc<Vec<u8>>, d: &Delivery, fault: Option<Fault>) -> Source {
        Source {
            end: data.len(),
            data: data.clone(),
            pos: 0,
            pace: Pace::new(d),
            fault,
            broken: false,
            stats: Arc::new(Stats::default()),
            id: 0,
        }
    }
    pub fn plain(data: &Arc<Vec<u8>>) -> Source {
        Self::new(data, &Delivery::FULL, None)
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    pub fn set_fault(&mut self, f: Option<Fault>) {
        self.fault = f;
        self.broken = false;
    }
    fn step(&mut self, buf: &mut [u8]) -> Result<usize> {
        sched::yield_point(10);
        let call = self.stats.calls.fetch_add(1, Relaxed);
        if self.pace.interrupted() {
            cnt("read_interrupted");
            shm::event(1, self.id, 1);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut room = buf.len().min(self.end - self.pos);
        if let Some(f) = self.fault {
            let now = match f.at {
                At::Byte(n) => {
                    // Deliver up to the fault, then fail.
                    let left = (n as usize).saturating_sub(self.pos);
                    let due = left == 0 && !buf.is_empty() && (n as usize) <= self.end;
                    if !due {
                        room = room.min(left.max(1));
                    }
                    due
                }
                At::Call(n) => call >= n,
                At::Flush(_) => false,
            };
            if now || self.broken {
                if f.sticky {
                    self.broken = true;
                } else {
                    self.fault = None;
                }
                self.stats.fired.fetch_add(1, Relaxed);
                shm::event(2, self.id, self.pos as u64);
                log!("source {}: fault {:?} at byte {} (call {})", self.id, f.what, self.pos, call);
                match f.what {
                    What::Kind(k) => {
                        cnt("read_error");
                        return Err(injected(k));
                    }
                    What::Zero => {
                        cnt("read_eof");
                        self.end = self.pos;
                        return Ok(0);
                    }
                    What::Panic => {
                        cnt("read_panic");
                        std::panic::panic_any(SimPanic)
                    }
                }
            }
        }
        let n = self.pace.piece(room);
        if n < buf.len() && n < self.end - self.pos {
            cnt("read_short");
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.stats.bytes.fetch_add(n as u64, Relaxed);
        shm::event(3, self.id, n as u64);
        Ok(n)
    }
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        alloc::outside(|| self.step(buf))
    }
}
impl Drop for Source {
    fn drop(&mut self) {
        self.stats.dropped.store(true, Relaxed);
    }
}
pub struct Sink {
    pub accepted: Vec<u8>,
    pace: Pace,
    fault: Option<Fault>,
    broken: bool,
    pub stats: Arc<Stats>,
    pub flushes: u64,
    /// Bytes accepted when the last successful flush happened.
    pub flushed: usize,
}
impl Sink {
    pub fn new(d: &Delivery, fault: Option<Fault>) -> Sink {
        Sink { accepted: Vec::new(), pace: Pace::new(d), fault, broken: false, stats: Arc::new(Stats::default()), flushes: 0, flushed: 0 }
    }
    pub fn plain() -> Sink {
        Self::new(&Delivery::FULL, None)
    }
    fn fail(&mut self, f: Fault) -> Result<usize> {
        if f.sticky {
            self.broken = true;
        } else {
            self.fault = None;
        }
        self.stats.fired.fetch_add(1, Relaxed);
        shm::event(5, 0, self.accepted.len() as u64);
        log!("sink: fault {:?} after {} bytes", f.what, self.accepted.len());
        match f.what {
            What::Kind(k) => {
                cnt("write_error");
                Err(injected(k))
            }
            What::Zero => {
                cnt("write_zero");
                Ok(0)
            }
            What::Panic => {
                cnt("write_panic");
                std::panic::panic_any(SimPanic)
            }
        }
    }
    fn step(&mut self, buf: &[u8]) -> Result<usize> {
        sched::yield_point(11);
        let call = self.stats.calls.fetch_add(1, Relaxed);
        if self.stats.fired() {
            self.stats.after_fault.fetch_add(1, Relaxed);
        }
        if self.pace.interrupted() {
            cnt("write_interrupted");
            shm::event(4, 0, 1);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut room = buf.len();
        if let Some(f) = self.fault {
            let now = match f.at {
                At::Byte(n) => {
                    let left = (n as usize).saturating_sub(self.accepted.len());
                    let due = left == 0 && !buf.is_empty();
                    if !due {
                        room = room.min(left.max(1));
                    }
                    due
                }
                At::Call(n) => call >= n && !buf.is_empty(),
                At::Flush(_) => false,
            };
            if now || self.broken {
                return self.fail(f);
            }
        }
        let n = self.pace.piece(room);
        if n < buf.len() {
            cnt("write_short");
        }
        self.accepted.extend_from_slice(&buf[..n]);
        self.stats.bytes.fetch_add(n as u64, Relaxed);
        shm::event(6, 0, n as u64);
        Ok(n)
    }
    fn do_flush(&mut self) -> Result<()> {
        sched::yield_point(12);
        let call = self.flushes;
        self.flushes += 1;
        if self.pace.interrupted() {
            // A flush is not retried on interruption by std's writers, so none is injected here.
            self.pace.burst = 0;
            self.pace.seen = false;
        }
        if let Some(f) = self.fault {
            let due = matches!(f.at, At::Flush(n) if call >= n);
            if due || (self.broken && matches!(f.what, What::Kind(_) | What::Panic)) {
                cnt("flush_error");
                return match self.fail(f) {
                    Err(e) => Err(e),
                    Ok(_) => Ok(()),
                };
            }
        }
        self.flushed = self.accepted.len();
        Ok(())
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        alloc::outside(|| self.step(buf))
    }
    fn flush(&mut self) -> Result<()> {
        alloc::outside(|| self.do_flush())
    }
}
/// One file on a simulated disk: a page cache over what is durable.
#[derive(Clone, Default)]
pub struct DiskFile {
    pub cached: Vec<u8>,
    pub durable: Vec<u8>,
}
#[derive(Default)]
pub struct Disk {
    pub files: std::collections::BTreeMap<u32, DiskFile>,
}
impl Disk {
    /// Truncates and writes (what a save through `sink` left there).
    pub fn put(&mut self, id: u32, bytes: Vec<u8>) {
        let f = self.files.entry(id).or_default();
        f.cached = bytes;
        f.durable = Vec::new();
    }
    pub fn sync(&mut self, id: u32) {
        cnt("disk_sync");
        let f = self.files.get_mut(&id).unwrap();
        f.durable = f.cached.clone();
    }
    /// Power loss: what was not synced survives only as a prefix of arbitrary length.
    pub fn crash(&mut self, s: &mut Src) {
        cnt("crash");
        for f in self.files.values_mut() {
            if f.durable.len() < f.cached.len() {
                let more = s.below((f.cached.len() - f.durable.len()) as u64 + 1) as usize;
                let keep = f.durable.len() + more;
                if keep < f.cached.len() {
                    cnt("lost_tail");
                }
                f.cached.truncate(keep);
            }
            f.durable = f.cached.clone();
        }
    }
    pub fn get(&self, id: u32) -> Arc<Vec<u8>> {
        Arc::new(self.files.get(&id).map(|f| f.cached.clone()).unwrap_or_default())
    }
}
