//! Simulated threads. They are real OS threads (so thread-locals, stacks and unwinding are real), but a
//! single token decides who runs: everyone else waits on a private futex word. The holder gives the
//! token away only at scheduling points, and only the seeded policy (or an explicit switch list, on
//! replay) decides to whom.
use crate::rng::Rng;
use crate::{alloc, shm, sys};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
#[derive(Clone, Debug)]
pub enum Policy {
    /// Never preempt; lowest id first.
    None,
    /// Preempt with probability n/1024 at every scheduling point.
    Random(u64),
    /// Priorities with `changes` random change points within the first `span` points (PCT).
    Pct { changes: u64, span: u64 },
    /// Exactly these deviations from `None`: (decision number, choice).
    Explicit(Vec<[u64; 2]>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Runnable,
    Blocked { key: usize, timed: bool },
    Quiesce,
    Done,
}
struct Th {
    word: Box<AtomicU32>,
    state: State,
    timed_out: bool,
    prio: u64,
    rand: Rng,
    os: Os,
}
/// The OS thread behind a simulated one.
enum Os {
    None,
    /// Started by the simulator.
    Own(std::thread::JoinHandle<()>),
    /// Started by the library, through `pthread_create`: pthread handle and kernel thread id.
    Foreign { handle: u64, tid: i32 },
}
struct Sched {
    th: Vec<Th>,
    cur: usize,
    policy: Policy,
    explicit: HashMap<u64, u64>,
    rng: Rng,
    step: u64,
    decision: u64,
    limit: u64,
    changes: Vec<u64>,
    low: u64,
    record: Vec<[u64; 2]>,
    seed: u64,
    finished: bool,
    /// A thread that has ended but whose OS thread may still be running its last destructors.
    reap: Os,
    pub switches: u64,
    clock: Clock,
    started: u64,
    /// Ended threads of the library that nobody can refer to any more.
    free: Vec<usize>,
}
/// The clocks advance with the scheduling steps, and jump when library code reads them: the monotonic one
/// forwards, the wall clock both ways.
struct Clock {
    rng: Rng,
    mono: u64,
    real: i64,
}
impl Clock {
    fn new(seed: u64) -> Clock {
        let mut rng = Rng::new(seed ^ 0xC10C);
        let mono = rng.below(1 << 50);
        let real = 1_500_000_000_000_000_000 + rng.below(1 << 59) as i64;
        Clock { rng, mono, real }
    }
    fn jump(&mut self) {
        if self.rng.below(3) == 0 {
            let by = self.rng.below(50);
            self.mono += self.rng.below(1 << by);
        }
        if self.rng.below(3) == 0 {
            let by = self.rng.below(58);
            let d = self.rng.below(1 << by) as i64;
            self.real += if self.rng.below(2) == 0 { d } else { -d };
            self.real = self.real.clamp(1_000_000_000, 4_000_000_000_000_000_000);
        }
    }
}
static mut SCHED: Option<Sched> = None;
static FINISH: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { SCHED.as_mut().expect("no simulation running") }
}
pub fn on_sim_thread() -> bool {
    ME.try_with(|m| m.get() != usize::MAX).unwrap_or(false)
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}
fn wait_token(word: &AtomicU32) {
    while word.load(SeqCst) == 0 {
        sys::futex_wait_raw(word, 0);
    }
    word.store(0, SeqCst);
    // Whoever runs next first waits until a thread that just ended is really gone.
    match std::mem::replace(&mut s().reap, Os::None) {
        Os::None => (),
        Os::Own(h) => drop(h.join()),
        Os::Foreign { tid, .. } => sys::await_gone(tid),
    }
}
fn give_token(to: usize) {
    let sc = s();
    sc.cur = to;
    let w: *const AtomicU32 = &*sc.th[to].word;
    unsafe {
        (*w).store(1, SeqCst);
        sys::futex_wake_raw(&*w);
    }
}
/// What a clock shows: nanoseconds.
pub fn clock_ns(wall: bool) -> u64 {
    let sc = s();
    if alloc::is_inside() {
        shm::get().clock_reads += 1;
        sc.clock.jump();
    }
    let t = sc.step * 1_000;
    if wall {
        sc.clock.real as u64 + t
    } else {
        sc.clock.mono + t
    }
}
/// Random bytes for hash seeds and the like: a stream per simulated thread, from the run's seed.
pub fn fill_random(buf: &mut [u8]) {
    let r = &mut s().th[me()].rand;
    for c in buf.chunks_mut(8) {
        let v = r.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}
impl Sched {
    fn runnable(&self) -> usize {
        self.th.iter().filter(|t| t.state == State::Runnable).count()
    }
    /// A choice among n alternatives, 0 being the default.
    fn choose(&mut self, n: u64, kind: u64) -> u64 {
        self.decision += 1;
        let d = self.decision;
        let c = match &self.policy {
            Policy::Explicit(_) => self.explicit.get(&d).copied().unwrap_or(0) % n,
            Policy::None => 0,
            _ => {
                let _ = kind;
                self.rng.below(n)
            }
        };
        if c != 0 {
            self.rec(d, c);
        }
        c
    }
    fn rec(&mut self, d: u64, c: u64) {
        if self.record.len() < shm::SWITCH_CAP {
            self.record.push([d, c]);
            let sh = shm::get();
            if (sh.switch_len as usize) < shm::SWITCH_CAP {
                sh.switches[sh.switch_len as usize] = [d, c];
                sh.switch_len += 1;
            }
        }
    }
    /// Which thread runs next. `forced`: the current one cannot. Choice 0 is the default (stay, or the
    /// first runnable after the current), choice k the k-th runnable alternative.
    fn next(&mut self, forced: bool) -> usize {
        self.next_with(forced, 0)
    }
    /// `least`: the least probability of a preemption under the random policy.
    fn next_with(&mut self, forced: bool, least: u64) -> usize {
        let n = self.th.len();
        let mut alts: Vec<usize> = Vec::with_capacity(n);
        if !forced {
            alts.push(self.cur);
        }
        for k in 1..=n {
            let t = (self.cur + k) % n;
            if t != self.cur && self.th[t].state == State::Runnable {
                alts.push(t);
            }
        }
        debug_assert!(!alts.is_empty());
        if alts.len() == 1 {
            return alts[0];
        }
        self.decision += 1;
        let d = self.decision;
        let c = match &self.policy {
            Policy::None => 0,
            Policy::Explicit(_) => (self.explicit.get(&d).copied().unwrap_or(0) as usize).min(alts.len() - 1),
            Policy::Random(p) => {
                let p = (*p).max(least);
                if forced {
                    self.rng.below(alts.len() as u64) as usize
                } else if self.rng.below(1024) < p {
                    1 + self.rng.below(alts.len() as u64 - 1) as usize
                } else {
                    0
                }
            }
            Policy::Pct { .. } => {
                if self.changes.contains(&d) {
                    self.low -= 1;
                    let cur = self.cur;
                    self.th[cur].prio = self.low;
                }
                let mut best = 0;
                for (i, t) in alts.iter().enumerate() {
                    if self.th[*t].prio > self.th[alts[best]].prio {
                        best = i;
                    }
                }
                best
            }
        };
        if c != 0 {
            self.rec(d, c as u64);
        }
        alts[c]
    }
}
fn tick() {
    let sc = s();
    sc.step += 1;
    shm::get().steps = sc.step;
    if sc.step > sc.limit {
        shm::get().status = shm::ST_STEPS;
        unsafe { sys::_exit(79) }
    }
}
fn switch_to(next: usize) {
    let me = me();
    if next == me {
        return;
    }
    let sc = s();
    sc.switches += 1;
    shm::event(7, next as u64, sc.step);
    let w: *const AtomicU32 = &*sc.th[me].word;
    give_token(next);
    unsafe { wait_token(&*w) };
}
/// A scheduling point: the policy may preempt the running thread here.
pub fn yield_point(_kind: u64) {
    if !on_sim_thread() {
        return;
    }
    alloc::outside(|| {
        tick();
        let sc = s();
        if sc.th.len() > 1 {
            let n = sc.next(false);
            switch_to(n);
        }
    })
}
/// A scheduling point in the middle of library code.
pub fn code_point() {
    if !on_sim_thread() {
        return;
    }
    tick();
    let sc = s();
    if sc.th.len() > 1 {
        let n = sc.next_with(false, 300);
        switch_to(n);
    }
}
/// The running thread gives up its turn: somebody else runs if anybody can.
pub fn sleep() {
    alloc::outside(|| {
        tick();
        let sc = s();
        if sc.runnable() > 1 {
            let n = sc.next(true);
            switch_to(n);
        }
    })
}
fn block(state: State) {
    tick();
    let m = me();
    s().th[m].state = state;
    s().th[m].timed_out = false;
    resched();
}
/// The running thread just stopped being runnable.
fn resched() {
    let sc = s();
    if sc.runnable() == 0 {
        // Nobody can run: the clock jumps to the next timeout; else the system is quiescent.
        if let Some(t) = sc.th.iter().position(|t| matches!(t.state, State::Blocked { timed: true, .. })) {
            sc.th[t].state = State::Runnable;
            sc.th[t].timed_out = true;
        } else if let Some(t) = sc.th.iter().position(|t| t.state == State::Quiesce) {
            sc.th[t].state = State::Runnable;
        } else {
            deadlock();
        }
    }
    let next = sc.next_forced();
    switch_to(next);
}
impl Sched {
    fn next_forced(&mut self) -> usize {
        if self.th[self.cur].state == State::Runnable && self.runnable() == 1 {
            return self.cur;
        }
        if self.th[self.cur].state == State::Runnable {
            return self.next(false);
        }
        self.next(true)
    }
}
fn deadlock() -> ! {
    let sc = s();
    let d: Vec<String> = sc
        .th
        .iter()
        .enumerate()
        .map(|(i, t)| format!("thread {i}: {}", match t.state {
            State::Blocked { .. } => "blocked",
            State::Done => "done",
            _ => "runnable",
        }))
        .collect();
    shm::set_msg(&format!("no thread can run: {}", d.join(", ")));
    shm::get().status = shm::ST_DEADLOCK;
    unsafe { sys::_exit(78) }
}
/// Blocks until `wake_key(key)`; false if a timed wait ran out.
pub fn block_on_key(key: usize, timed: bool) -> bool {
    alloc::outside(|| {
        block(State::Blocked { key, timed });
        !s().th[me()].timed_out
    })
}
pub fn wake_key(key: usize, max: usize) -> usize {
    alloc::outside(|| {
        let sc = s();
        let mut n = 0;
        for t in sc.th.iter_mut() {
            if n == max {
                break;
            }
            if let State::Blocked { key: k, .. } = t.state {
                if k == key {
                    t.state = State::Runnable;
                    n += 1;
                }
            }
        }
        n
    })
}
/// A scheduler-made choice among n alternatives (for example which queued task a worker takes).
pub fn choose(n: u64, kind: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    s().choose(n, kind)
}
/// Waits until no other thread can run.
pub fn quiesce() {
    alloc::outside(|| block(State::Quiesce));
}
pub fn switches() -> u64 {
    s().switches
}
pub fn steps() -> u64 {
    s().step
}
pub struct JoinHandle<T> {
    id: usize,
    slot: std::sync::Arc<std::sync::Mutex<Option<std::thread::Result<T>>>>,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        alloc::outside(|| {
            while s().th[self.id].state != State::Done {
                block(State::Blocked { key: done_key(self.id), timed: false });
            }
            self.slot.lock().unwrap().take().expect("joined once")
        })
    }
    pub fn is_done(&self) -> bool {
        s().th[self.id].state == State::Done
    }
}
fn done_key(id: usize) -> usize {
    usize::MAX - id
}
fn add_thread() -> usize {
    let sc = s();
    sc.started = sc.started.wrapping_add(1);
    let mut r = Rng::new(sc.seed ^ 0xABCD ^ (sc.started << 32));
    let prio = (1 << 32) + r.below(1 << 32);
    let rand = Rng::new(r.next());
    let th = Th { word: Box::new(AtomicU32::new(0)), state: State::Runnable, timed_out: false, prio, rand, os: Os::None };
    if let Some(id) = sc.free.pop() {
        sc.th[id] = th;
        return id;
    }
    sc.th.push(th);
    sc.th.len() - 1
}
/// Starts a simulated thread.
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    alloc::outside(|| {
        let id = add_thread();
        let word: usize = &*s().th[id].word as *const AtomicU32 as usize;
        let slot = std::sync::Arc::new(std::sync::Mutex::new(None));
        let slot2 = slot.clone();
        let os = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                wait_token(unsafe { &*(word as *const AtomicU32) });
                ME.with(|m| m.set(id));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                *slot2.lock().unwrap() = Some(r);
                drop(slot2);
                exit_thread(id);
            })
            .expect("spawn simulated thread");
        s().th[id].os = Os::Own(os);
        JoinHandle { id, slot }
    })
}
/// A thread that library code starts becomes a simulated one.
struct Foreign {
    id: usize,
    word: usize,
    start: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
}
extern "C" fn foreign_main(p: *mut u8) -> *mut u8 {
    let f = unsafe { Box::from_raw(p as *mut Foreign) };
    wait_token(unsafe { &*(f.word as *const AtomicU32) });
    if let Os::Foreign { tid, .. } = &mut s().th[f.id].os {
        *tid = sys::gettid();
    }
    ME.with(|m| m.set(f.id));
    let (id, start, arg) = (f.id, f.start, f.arg);
    drop(f);
    let r = alloc::inside(|| start(arg));
    exit_thread(id);
    r
}
/// `pthread_create` called by library code. The new thread starts when the scheduler lets it.
pub unsafe fn adopt(create: impl FnOnce(extern "C" fn(*mut u8) -> *mut u8, *mut u8, &mut u64) -> i32, start: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> (i32, u64) {
    alloc::outside(|| {
        let id = add_thread();
        let word = &*s().th[id].word as *const AtomicU32 as usize;
        let mut handle = 0;
        let f = Box::into_raw(Box::new(Foreign { id, word, start, arg }));
        let rc = create(foreign_main, f as *mut u8, &mut handle);
        if rc != 0 {
            drop(Box::from_raw(f));
            s().th[id].state = State::Done;
            return (rc, 0);
        }
        s().th[id].os = Os::Foreign { handle, tid: 0 };
        shm::get().lib_threads += 1;
        yield_point(5);
        (0, handle)
    })
}
/// `pthread_join` on a simulated thread: waits in simulated time first.
pub fn await_foreign(handle: u64) {
    alloc::outside(|| {
        let t = s().th.iter().position(|t| matches!(t.os, Os::Foreign { handle: h, .. } if h == handle));
        if let Some(t) = t {
            while s().th[t].state != State::Done {
                block(State::Blocked { key: done_key(t), timed: false });
            }
            s().th[t].os = Os::None;
            s().free.push(t);
        }
    })
}
/// `pthread_detach`: the handle may be used again for another thread.
pub fn forget_foreign(handle: u64) {
    alloc::outside(|| {
        let sc = s();
        for (i, t) in sc.th.iter_mut().enumerate() {
            match &mut t.os {
                Os::Foreign { handle: h, .. } if *h == handle => {
                    if t.state == State::Done {
                        t.os = Os::None;
                        sc.free.push(i);
                    } else {
                        *h = 0;
                    }
                }
                _ => (),
            }
        }
    })
}
fn exit_thread(id: usize) {
    tick();
    wake_key(done_key(id), usize::MAX);
    let sc = s();
    sc.th[id].state = State::Done;
    if sc.finished {
        FINISH.store(1, SeqCst);
        sys::futex_wake_raw(&FINISH);
        // Park for good: the process is about to exit.
        loop {
            sys::futex_wait_raw(&sc.th[id].word, 0);
        }
    }
    if sc.runnable() == 0 {
        if let Some(t) = sc.th.iter().position(|t| matches!(t.state, State::Blocked { timed: true, .. })) {
            sc.th[t].state = State::Runnable;
            sc.th[t].timed_out = true;
        } else if let Some(t) = sc.th.iter().position(|t| t.state == State::Quiesce) {
            sc.th[t].state = State::Runnable;
        } else {
            deadlock();
        }
    }
    let n = sc.next(true);
    sc.reap = std::mem::replace(&mut sc.th[id].os, Os::None);
    if let Os::Foreign { handle, .. } = sc.reap {
        // Kept for `pthread_join`.
        if handle == 0 {
            sc.free.push(id);
        } else {
            sc.th[id].os = Os::Foreign { handle, tid: 0 };
        }
    }
    ME.with(|m| m.set(usize::MAX));
    give_token(n);
}
/// Sets the policy from now on (plans are drawn before the interesting part starts).
pub fn set_policy(p: Policy, seed: u64) {
    let sc = s();
    sc.rng = Rng::new(seed ^ 0x5C4E_D000);
    sc.explicit.clear();
    if let Policy::Explicit(l) = &p {
        for [a, b] in l {
            sc.explicit.insert(*a, *b);
        }
    }
    sc.changes.clear();
    if let Policy::Pct { changes, span } = &p {
        for _ in 0..*changes {
            let c = sc.decision + 1 + sc.rng.below(*span);
            sc.changes.push(c);
        }
    }
    sc.policy = p;
}
/// Reseeds the random bytes a thread gets (hash seeds).
pub fn set_entropy(seed: u64) {
    let sc = s();
    sc.seed = seed;
    let m = me();
    sc.th[m].rand = Rng::new(seed);
    sc.clock = Clock::new(seed);
}
/// Runs `f` as simulated thread 0 of a fresh simulation and returns when it has finished.
pub fn run(seed: u64, limit: u64, f: impl FnOnce() + Send + 'static) {
    unsafe {
        SCHED = Some(Sched {
            th: Vec::with_capacity(64),
            cur: 0,
            policy: Policy::None,
            explicit: HashMap::new(),
            rng: Rng::new(seed),
            step: 0,
            decision: 0,
            limit,
            changes: Vec::new(),
            low: 1 << 31,
            record: Vec::new(),
            seed,
            finished: false,
            reap: Os::None,
            switches: 0,
            clock: Clock::new(seed),
            started: u64::MAX,
            free: Vec::new(),
        });
    }
    FINISH.store(0, SeqCst);
    let _h = spawn(move || {
        f();
        s().finished = true;
    });
    give_token(0);
    while FINISH.load(SeqCst) == 0 {
        sys::futex_wait_raw(&FINISH, 0);
    }
}
