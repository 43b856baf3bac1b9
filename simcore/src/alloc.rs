//! Global allocator. Allocations made by library code (between `inside` and `outside`) are counted
//! exactly, are scheduling points, and are refused beyond limits far above anything legitimate.
use crate::{sched, shm};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
pub struct SimAlloc;
thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static YIELD: AtomicU64 = AtomicU64::new(1);
pub const LIMIT_ONE: u64 = 256 << 20;
pub const LIMIT_LIVE: u64 = 512 << 20;
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}
pub fn peak() -> u64 {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    LARGEST.store(0, Relaxed);
}
pub fn calls() -> u64 {
    CALLS.load(Relaxed)
}
/// Make allocation a scheduling point every n-th time (0: never).
pub fn set_yield_every(n: u64) {
    YIELD.store(n, Relaxed);
}
struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(self.0));
    }
}
/// Runs library code.
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(INSIDE.with(|i| i.replace(true)));
    f()
}
/// Runs simulator code called back from library code.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(INSIDE.with(|i| i.replace(false)));
    f()
}
pub fn is_inside() -> bool {
    INSIDE.with(|i| i.get())
}
fn refuse(size: u64) -> ! {
    if shm::ready() {
        let s = shm::get();
        s.status = shm::ST_ALLOC;
        s.alloc_size = size;
    }
    unsafe { crate::sys::_exit(77) }
}
#[inline]
fn grow(size: u64) {
    if size > LIMIT_ONE {
        refuse(size);
    }
    let l = LIVE.fetch_add(size, Relaxed) + size;
    PEAK.fetch_max(l, Relaxed);
    if size > LARGEST.load(Relaxed) {
        LARGEST.store(size, Relaxed);
    }
    if l > LIMIT_LIVE {
        refuse(l);
    }
}
#[inline]
fn point() {
    let c = CALLS.load(Relaxed) + 1;
    CALLS.store(c, Relaxed);
    let y = YIELD.load(Relaxed);
    if y != 0 && c % y == 0 && !std::thread::panicking() {
        outside(|| sched::yield_point(1));
    }
}
const fn head(l: &Layout) -> usize {
    if l.align() > 16 {
        l.align()
    } else {
        16
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let counted = is_inside();
        if counted {
            point();
            grow(l.size() as u64);
        }
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(h);
        *(p.sub(8) as *mut u64) = counted as u64;
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let counted = is_inside();
        if counted {
            point();
            grow(l.size() as u64);
        }
        let base = System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(h);
        *(p.sub(8) as *mut u64) = counted as u64;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(&l);
        if *(p.sub(8) as *const u64) != 0 {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = head(&l);
        let counted = *(p.sub(8) as *const u64) != 0;
        if counted {
            if is_inside() {
                point();
            }
            // Both blocks exist while contents move.
            grow(new as u64);
            LIVE.fetch_sub(l.size() as u64, Relaxed);
        }
        let base = System.realloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)), new + h);
        if base.is_null() {
            return base;
        }
        base.add(h)
    }
}
