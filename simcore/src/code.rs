//! Scheduling points inside the library's own code. The library (and the simulator's crate, where its
//! generic code is compiled) is built with a call to `__sanitizer_cov_trace_pc` on every edge of the
//! control flow graph; every so often, at intervals drawn from the run's seed, such a call lets the
//! scheduler preempt the running thread. Simulator code never counts.
use crate::rng::Rng;
use crate::{alloc, sched};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
const IDLE: i64 = 1 << 62;
static LEFT: AtomicI64 = AtomicI64::new(IDLE);
static MEAN: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(0);
/// From now on about every `mean`-th edge is a scheduling point (0: none).
pub fn set(mean: u64, seed: u64) {
    MEAN.store(mean, Relaxed);
    STATE.store(seed | 1, Relaxed);
    next();
}
pub fn points() -> u64 {
    POINTS.load(Relaxed)
}
fn next() {
    // Rarer with time: a run has to end.
    let mean = MEAN.load(Relaxed) << (POINTS.load(Relaxed) / 4_000).min(16);
    let left = if mean == 0 {
        IDLE
    } else {
        let s = crate::rng::mix(STATE.load(Relaxed));
        STATE.store(s, Relaxed);
        1 + Rng::new(s).below(2 * mean) as i64
    };
    LEFT.store(left, Relaxed);
}
#[inline(never)]
fn point() {
    if std::thread::panicking() {
        LEFT.store(16, Relaxed);
        return;
    }
    POINTS.store(POINTS.load(Relaxed) + 1, Relaxed);
    next();
    alloc::outside(sched::code_point);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if !alloc::is_inside() {
        return;
    }
    let left = LEFT.load(Relaxed) - 1;
    LEFT.store(left, Relaxed);
    if left <= 0 {
        point();
    }
}
