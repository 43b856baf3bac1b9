//! Memory shared between a run (forked child) and its supervisor. Everything the supervisor needs to
//! know about a run is written here, so it survives aborts and kills.
use std::sync::atomic::{AtomicUsize, Ordering};
pub const TEXT_CAP: usize = 1 << 20;
pub const TAPE_CAP: usize = 1 << 17;
pub const SPAN_CAP: usize = 1 << 15;
pub const SWITCH_CAP: usize = 1 << 16;
pub const MSG_CAP: usize = 8192;
pub const NCOUNT: usize = 96;
/// Phase reached by the run.
pub const ST_RUNNING: u64 = 0;
pub const ST_PASS: u64 = 1;
pub const ST_VIOLATION: u64 = 2;
pub const ST_DEADLOCK: u64 = 3;
pub const ST_ALLOC: u64 = 4;
pub const ST_STEPS: u64 = 5;
pub const ST_HARNESS: u64 = 6;
#[repr(C)]
pub struct Shm {
    pub status: u64,
    pub steps: u64,
    pub hash: u64,
    pub plan_hash: u64,
    pub nontrivial: u64,
    pub verbose: u64,
    pub clock_reads: u64,
    pub lib_threads: u64,
    pub alloc_size: u64,
    pub class_len: u64,
    pub class: [u8; 128],
    pub msg_len: u64,
    pub msg: [u8; MSG_CAP],
    pub counts: [u64; NCOUNT],
    pub tape_len: u64,
    pub tape: [u64; TAPE_CAP],
    pub span_len: u64,
    pub spans: [[u32; 2]; SPAN_CAP],
    pub switch_len: u64,
    pub switches: [[u64; 2]; SWITCH_CAP],
    pub text_len: u64,
    pub text: [u8; TEXT_CAP],
}
static PTR: AtomicUsize = AtomicUsize::new(0);
pub fn map_shared(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
    let p = unsafe { crate::sys::mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}
pub fn init() {
    PTR.store(map_shared(std::mem::size_of::<Shm>()) as usize, Ordering::SeqCst);
}
#[allow(clippy::mut_from_ref)]
pub fn get() -> &'static mut Shm {
    unsafe { &mut *(PTR.load(Ordering::Relaxed) as *mut Shm) }
}
pub fn ready() -> bool {
    PTR.load(Ordering::Relaxed) != 0
}
/// Forget the previous run (cheap: only lengths and counters).
pub fn reset(verbose: bool) {
    let s = get();
    s.status = ST_RUNNING;
    s.steps = 0;
    s.hash = 0;
    s.plan_hash = 0;
    s.nontrivial = 0;
    s.verbose = verbose as u64;
    s.alloc_size = 0;
    s.clock_reads = 0;
    s.lib_threads = 0;
    s.class_len = 0;
    s.msg_len = 0;
    s.counts = [0; NCOUNT];
    s.tape_len = 0;
    s.span_len = 0;
    s.switch_len = 0;
    s.text_len = 0;
}
pub fn set_class(c: &str) {
    let s = get();
    let n = c.len().min(s.class.len());
    s.class[..n].copy_from_slice(&c.as_bytes()[..n]);
    s.class_len = n as u64;
}
pub fn set_msg(m: &str) {
    let s = get();
    let n = m.len().min(MSG_CAP);
    s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
    s.msg_len = n as u64;
}
pub fn class() -> String {
    let s = get();
    String::from_utf8_lossy(&s.class[..s.class_len as usize]).into_owned()
}
pub fn msg() -> String {
    let s = get();
    String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned()
}
pub fn text() -> String {
    let s = get();
    String::from_utf8_lossy(&s.text[..s.text_len as usize]).into_owned()
}
/// Mixes an event into the run's trace hash.
pub fn event(kind: u64, a: u64, b: u64) {
    let s = get();
    s.hash = crate::rng::mix(s.hash ^ kind.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ a.rotate_left(17) ^ b.rotate_left(41));
}
pub fn verbose() -> bool {
    ready() && get().verbose != 0
}
/// Appends a line to the run's readable log (only when the supervisor asked for one).
pub fn line(l: &str) {
    let s = get();
    if s.verbose == 0 {
        return;
    }
    let room = TEXT_CAP - s.text_len as usize;
    if l.len() + 1 > room {
        return;
    }
    let at = s.text_len as usize;
    s.text[at..at + l.len()].copy_from_slice(l.as_bytes());
    s.text[at + l.len()] = b'\n';
    s.text_len += l.len() as u64 + 1;
}
pub fn count(i: usize, n: u64) {
    get().counts[i] += n;
}
#[macro_export]
macro_rules! log {
    ($($a:tt)*) => { if $crate::shm::verbose() { $crate::alloc::outside(|| $crate::shm::line(&format!($($a)*))) } };
}
