//! System calls, and the symbols through which std reaches the kernel that the simulator takes over.
use crate::sched;
use std::arch::asm;
pub type CLong = i64;
pub type CInt = i32;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_GETRANDOM: i64 = 318;
pub const FUTEX_WAIT: i32 = 0;
pub const FUTEX_WAKE: i32 = 1;
pub const FUTEX_WAIT_BITSET: i32 = 9;
pub const FUTEX_WAKE_BITSET: i32 = 10;
const EAGAIN: i32 = 11;
const ETIMEDOUT: i32 = 110;
extern "C" {
    pub fn fork() -> CInt;
    pub fn waitpid(pid: CInt, status: *mut CInt, opts: CInt) -> CInt;
    pub fn _exit(code: CInt) -> !;
    pub fn kill(pid: CInt, sig: CInt) -> CInt;
    pub fn alarm(secs: u32) -> u32;
    pub fn setrlimit(res: CInt, lim: *const [u64; 2]) -> CInt;
    pub fn mmap(a: *mut u8, l: usize, p: CInt, f: CInt, fd: CInt, o: i64) -> *mut u8;
    fn __errno_location() -> *mut CInt;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    pub fn prctl(op: CInt, a: u64, b: u64, c: u64, d: u64) -> CInt;
}
#[inline]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn futex_wait_raw(word: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        raw_syscall(SYS_FUTEX, word as *const _ as i64, (FUTEX_WAIT | 128) as i64, val as i64, 0, 0, 0);
    }
}
pub fn futex_wake_raw(word: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw_syscall(SYS_FUTEX, word as *const _ as i64, (FUTEX_WAKE | 128) as i64, i32::MAX as i64, 0, 0, 0);
    }
}
unsafe fn set_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
/// Replaces libc's `syscall`: std's locks, parking and `Once` reach the kernel through it.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sched::on_sim_thread() {
        if n == SYS_FUTEX {
            let op = (b as i32) & 0x7f & !128;
            let addr = a as *const std::sync::atomic::AtomicU32;
            if op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET {
                if (*addr).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    *__errno_location() = EAGAIN;
                    return -1;
                }
                if sched::block_on_key(a as usize, d != 0) {
                    return 0;
                }
                *__errno_location() = ETIMEDOUT;
                return -1;
            }
            if op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET {
                return sched::wake_key(a as usize, c as u32 as usize) as i64;
            }
        }
        if n == SYS_GETRANDOM {
            return getrandom(a as *mut u8, b as usize, c as u32) as i64;
        }
    }
    set_errno(raw_syscall(n, a, b, c, d, e, f))
}
/// Replaces libc's `getrandom`: std seeds its hash maps from it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if sched::on_sim_thread() {
        sched::fill_random(std::slice::from_raw_parts_mut(buf, len));
        return len as isize;
    }
    set_errno(raw_syscall(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}
/// Sleeping is a scheduling point; simulated time costs nothing.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: CInt, flags: CInt, req: *const [i64; 2], rem: *mut [i64; 2]) -> CInt {
    if sched::on_sim_thread() {
        sched::sleep();
        return 0;
    }
    -(raw_syscall(230, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> CInt {
    if sched::on_sim_thread() {
        sched::sleep();
        return 0;
    }
    set_errno(raw_syscall(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> CInt {
    if sched::on_sim_thread() {
        sched::sleep();
        return 0;
    }
    set_errno(raw_syscall(24, 0, 0, 0, 0, 0, 0)) as i32
}
/// The clocks are simulated too: they advance with scheduler steps, and jump.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: CInt, ts: *mut [i64; 2]) -> CInt {
    if sched::on_sim_thread() {
        let ns = sched::clock_ns(clk == 0);
        (*ts)[0] = (ns / 1_000_000_000) as i64;
        (*ts)[1] = (ns % 1_000_000_000) as i64;
        return 0;
    }
    set_errno(raw_syscall(228, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}
type Start = extern "C" fn(*mut u8) -> *mut u8;
unsafe fn next_symbol(name: &[u8]) -> *mut u8 {
    let p = dlsym(-1isize as *mut u8, name.as_ptr());
    if p.is_null() {
        _exit(64);
    }
    p
}
/// Threads that library code starts are simulated threads.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> CInt {
    let real: unsafe extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> CInt =
        std::mem::transmute(next_symbol(b"pthread_create\0"));
    if sched::on_sim_thread() && crate::alloc::is_inside() {
        let (rc, h) = sched::adopt(|f, a, h| real(h, attr, f, a), start, arg);
        if rc == 0 {
            *out = h;
        }
        return rc;
    }
    real(out, attr, start, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: u64, ret: *mut *mut u8) -> CInt {
    let real: unsafe extern "C" fn(u64, *mut *mut u8) -> CInt = std::mem::transmute(next_symbol(b"pthread_join\0"));
    if sched::on_sim_thread() {
        sched::await_foreign(h);
    }
    real(h, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(h: u64) -> CInt {
    let real: unsafe extern "C" fn(u64) -> CInt = std::mem::transmute(next_symbol(b"pthread_detach\0"));
    if sched::on_sim_thread() {
        sched::forget_foreign(h);
    }
    real(h)
}
pub fn gettid() -> i32 {
    unsafe { raw_syscall(186, 0, 0, 0, 0, 0, 0) as i32 }
}
/// Waits until a thread of this process has ended.
pub fn await_gone(tid: i32) {
    unsafe {
        let pid = raw_syscall(39, 0, 0, 0, 0, 0, 0);
        while raw_syscall(234, pid, tid as i64, 0, 0, 0, 0) == 0 {
            raw_syscall(24, 0, 0, 0, 0, 0, 0);
        }
    }
}
/// std installs handlers for stack overflow, and with them a lock that every starting and ending thread
/// takes, managed by the simulator or not. Told that somebody else handles these signals, it does not;
/// a stack overflow then ends the run with the plain signal.
#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: CInt, new: *const u8, old: *mut [u64; 19]) -> CInt {
    if sig == 11 || sig == 7 {
        if !old.is_null() {
            *old = [0; 19];
            (*old)[0] = 1; // SIG_IGN
        }
        return 0;
    }
    let real: unsafe extern "C" fn(CInt, *const u8, *mut [u64; 19]) -> CInt = std::mem::transmute(next_symbol(b"sigaction\0"));
    real(sig, new, old)
}
