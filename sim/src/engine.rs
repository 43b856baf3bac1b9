//! Runs simulations: one forked process per run, eight at a time; results, counters and choice tapes come
//! back through shared memory. Also the minimiser and the replayer.
use simcore::sched::Policy;
use simcore::src::Src;
use simcore::{alloc, rng, sched, shm, sys};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// Every counter of the evidence, by name.
pub const NAMES: &[&str] = &[
    "read_interrupted", "read_short", "read_error", "read_eof", "read_panic", "write_interrupted", "write_short",
    "write_error", "write_zero", "write_panic", "flush_error", "crash", "lost_tail", "disk_sync", "loads", "saves",
    "imports", "exports", "optimises", "inspections", "load_errors", "retries", "cuts", "damage_bitflip", "damage_overwrite",
    "damage_drop", "damage_dup", "damage_move", "damage_truncate", "damage_field", "damage_insert", "future_dropped",
    "load_abandoned", "threads", "tasks", "preemptions", "reseeded", "generations", "meshes", "migrations", "unasked_polls", "near_meshes", "near_files", "preludes", "legacy_files",
    "newer_files", "unknown_segments", "refused", "bit_values", "async_loads", "sync_loads", "one_loads", "concat_files",
    "header_damage", "damaged_loaded_ok", "policy_none", "policy_random", "policy_pct", "workers_1", "workers_2",
    "workers_3", "workers_4", "neighbour_failures", "text_damage", "corners", "custom_arrays", "enumerated_cuts",
    "zero_width", "fault_positions", "huge_names", "segments", "torn_middle", "leak_rounds", "bytes_in", "bytes_out",
    "retry_after_failure", "stream_panic_neighbour", "clock_us", "huge_arrays", "huge_texts", "many_meshes", "policy_code", "code_points",
    "clock_reads", "lib_threads",
];
fn idx(name: &str) -> usize {
    NAMES.iter().position(|n| std::ptr::eq(n.as_ptr(), name.as_ptr()) || *n == name).unwrap_or_else(|| panic!("unknown counter {name}"))
}
pub fn cnt(name: &'static str) {
    cntn(name, 1);
}
pub fn cntn(name: &'static str, n: u64) {
    shm::count(idx(name), n);
}
pub fn nontrivial() {
    shm::get().nontrivial = 1;
}
/// Ends the run: the property is broken.
pub fn fail(class: &str, msg: impl AsRef<str>) -> ! {
    alloc::outside(|| {
        shm::set_class(class);
        shm::set_msg(msg.as_ref());
        shm::get().status = shm::ST_VIOLATION;
        if shm::verbose() {
            shm::line(&format!("VIOLATED [{class}] {}", msg.as_ref()));
        }
        unsafe { sys::_exit(66) }
    })
}
thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
fn hook(info: &std::panic::PanicHookInfo<'_>) {
    alloc::outside(|| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.is::<crate::io::SimPanic>() {
            "(injected)".into()
        } else {
            "?".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{m} at {at}");
        simcore::log!("  panic: {text}");
        let _ = PANIC.try_with(|p| *p.borrow_mut() = text);
    })
}
pub struct Panicked {
    pub injected: bool,
    pub msg: String,
}
/// Runs library code: counted, preemptible at allocations, panics caught.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    match alloc::inside(|| catch_unwind(AssertUnwindSafe(f))) {
        Ok(r) => Ok(r),
        Err(p) => {
            let injected = p.is::<crate::io::SimPanic>();
            let msg = last_panic();
            let _ = catch_unwind(AssertUnwindSafe(|| drop(p)));
            Err(Panicked { injected, msg })
        }
    }
}
/// Runs library code that has no reason to panic.
pub fn calm<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match lib(f) {
        Ok(r) => r,
        Err(p) => fail("panic", format!("{what} panicked: {}", p.msg)),
    }
}
/// A simulated thread's result.
pub fn joined<T>(h: sched::JoinHandle<T>) -> T {
    match h.join() {
        Ok(v) => v,
        Err(_) => harness("a simulated client thread of the harness panicked"),
    }
}
pub fn harness(msg: &str) -> ! {
    shm::set_msg(&format!("{msg} ({})", last_panic()));
    shm::get().status = shm::ST_HARNESS;
    unsafe { sys::_exit(65) }
}
/// Explicit switches of a replay.
static mut EXPLICIT: Option<Vec<[u64; 2]>> = None;
#[allow(static_mut_refs)]
fn explicit() -> Option<Vec<[u64; 2]>> {
    unsafe { EXPLICIT.clone() }
}
/// Draws a scheduling policy and starts it.
pub fn draw_policy(s: &mut Src) {
    s.span(|s| {
        let k = s.weighted(&[1, 5, 4]);
        let seed = s.seed();
        let p = match k {
            0 => {
                cnt("policy_none");
                Policy::None
            }
            1 => {
                cnt("policy_random");
                let p = *s.pick(&[5, 20, 80, 300, 700]);
                Policy::Random(p)
            }
            _ => {
                cnt("policy_pct");
                let changes = s.range(1, 12);
                let span = *s.pick(&[100, 400, 2000, 10000]);
                Policy::Pct { changes, span }
            }
        };
        // Preemption in the middle of the library's code.
        let gap = if s.chance(1, 3) { *s.pick(&[4000, 800, 150, 30, 5]) } else { 0 };
        if gap > 0 && k != 0 {
            cnt("policy_code");
        }
        simcore::log!("schedule: {p:?}, in code every {gap}");
        start_policy(p, if k == 0 { 0 } else { gap }, seed);
    })
}
pub fn start_policy(p: Policy, gap: u64, seed: u64) {
    simcore::code::set(gap, seed);
    match explicit() {
        Some(l) => sched::set_policy(Policy::Explicit(l), seed),
        None => sched::set_policy(p, seed),
    }
}
pub fn no_preemption() {
    start_policy(Policy::None, 0, 0);
}

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Src),
    /// Scheduling steps after which a run counts as stuck.
    pub steps: u64,
    /// Runs of a quick check (per build) and their relative cost.
    pub quick: u64,
    pub rule: &'static str,
}
#[derive(Clone, Default, Debug)]
pub struct Outcome {
    pub status: u64,
    pub class: String,
    pub msg: String,
    pub hash: u64,
}
impl Outcome {
    pub fn bad(&self) -> bool {
        self.status != shm::ST_PASS && self.status != shm::ST_HARNESS
    }
}
pub enum Input<'a> {
    Seed(u64),
    Tape { tape: &'a [u64], switches: Option<&'a [[u64; 2]]> },
}
/// Executes one run in a child process. The run's shared memory is left for the caller to read.
pub fn execute(p: &Prop, input: &Input, seed: u64, verbose: bool) -> Outcome {
    for attempt in 0..2 {
        let o = execute_once(p, input, seed, verbose);
        if o.class == "hang" && o.msg.starts_with("wall") && attempt == 0 {
            continue; // The machine may just be busy; the processor-time limit is the real one.
        }
        return o;
    }
    unreachable!()
}
fn execute_once(p: &Prop, input: &Input, seed: u64, verbose: bool) -> Outcome {
    shm::reset(verbose);
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child(p, input, seed);
    }
    let mut st = 0;
    while unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
    let sh = shm::get();
    let mut o = Outcome { status: sh.status, class: shm::class(), msg: shm::msg(), hash: sh.hash };
    let sig = st & 0x7f;
    if sig != 0 {
        match sig {
            14 => {
                o.class = "hang".into();
                o.msg = "wall clock limit of the run reached".into();
            }
            24 | 9 => {
                o.class = "hang".into();
                o.msg = "processor time limit of the run reached".into();
            }
            _ => {
                o.class = "abort".into();
                o.msg = format!("process ended by signal {sig}: {}", o.msg);
            }
        }
        o.status = shm::ST_VIOLATION;
        return o;
    }
    match o.status {
        shm::ST_DEADLOCK => o.class = "deadlock".into(),
        shm::ST_ALLOC => {
            o.class = "memory".into();
            o.msg = format!("{} bytes of memory asked for", sh.alloc_size);
        }
        shm::ST_STEPS => {
            o.class = "stuck".into();
            o.msg = "step limit reached: no progress".into();
        }
        shm::ST_RUNNING => {
            o.status = shm::ST_HARNESS;
            o.msg = format!("run ended without a verdict, exit status {st:x}: {}", o.msg);
        }
        _ => {}
    }
    o
}
/// This run may take long.
pub fn patience() {
    unsafe {
        sys::setrlimit(0, &[150, 200]);
        sys::alarm(600);
    }
}
fn child(p: &Prop, input: &Input, seed: u64) -> ! {
    unsafe {
        sys::prctl(1, 9, 0, 0, 0); // PR_SET_PDEATHSIG
        sys::prctl(4, 0, 0, 0, 0); // PR_SET_DUMPABLE: no core files
        sys::setrlimit(0, &[20, 200]); // RLIMIT_CPU
        sys::alarm(60);
    }
    std::panic::set_hook(Box::new(hook));
    let mut s = match input {
        Input::Seed(x) => Src::generate(*x),
        Input::Tape { tape, switches } => {
            unsafe {
                EXPLICIT = switches.map(|s| s.to_vec());
            }
            Src::replay(tape.to_vec())
        }
    };
    let run = p.run;
    sched::run(seed, p.steps, move || {
        let r = catch_unwind(AssertUnwindSafe(|| run(&mut s)));
        let sh = shm::get();
        if r.is_err() {
            harness("the harness panicked");
        }
        cntn("preemptions", sched::switches());
        cntn("code_points", simcore::code::points());
        cntn("clock_reads", sh.clock_reads);
        cntn("lib_threads", sh.lib_threads);
        shm::event(99, sched::steps(), sched::switches());
        sh.status = shm::ST_PASS;
    });
    unsafe { sys::_exit(0) }
}
pub fn run_seed(p: &Prop, seed: u64, build: u64, i: u64) -> u64 {
    let mut h = seed ^ 0x7AF0_0000_0000_0000 ^ (build << 56);
    for b in p.id.bytes() {
        h = rng::mix(h ^ b as u64);
    }
    rng::mix(h ^ i)
}
/// One line of the shared result table.
#[repr(C)]
#[derive(Clone, Copy)]
struct Row {
    state: u64,
    status: u64,
    hash: u64,
    plan: u64,
    steps: u64,
    nontrivial: u64,
}
pub struct Report {
    pub runs: u64,
    pub wall: f64,
    pub steps: u64,
    pub counts: Vec<u64>,
    pub distinct_traces: u64,
    pub distinct_plans: u64,
    pub distinct_nontrivial: u64,
    pub fingerprint: u64,
    pub violation: Option<(u64, Outcome)>,
    pub violations: u64,
    /// Failing runs that passed every time they were run again.
    pub unreproduced: u64,
    pub harness: Option<(u64, Outcome)>,
}
/// Runs indices first..first+n on `jobs` processes, stopping early after `secs`.
pub fn sweep(p: &Prop, seed: u64, build: u64, first: u64, n: u64, jobs: usize, secs: f64) -> Report {
    let t0 = Instant::now();
    let rows = unsafe {
        let raw = shm::map_shared(n as usize * std::mem::size_of::<Row>() + 4096) as *mut Row;
        std::slice::from_raw_parts_mut(raw, n as usize)
    };
    let next = unsafe { &*(shm::map_shared(4096) as *const AtomicU64) };
    let stop = unsafe { &*(shm::map_shared(4096) as *const AtomicU64) };
    let totals = unsafe { std::slice::from_raw_parts_mut(shm::map_shared(jobs * 4096) as *mut u64, jobs * 512) };
    let mut pids = Vec::new();
    for j in 0..jobs {
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { sys::prctl(1, 9, 0, 0, 0) };
            shm::init();
            loop {
                if stop.load(SeqCst) >= 3 || t0.elapsed() > Duration::from_secs_f64(secs) {
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                let rs = run_seed(p, seed, build, first + i);
                let o = execute(p, &Input::Seed(rs), rs, false);
                let sh = shm::get();
                rows[i as usize] = Row { state: 1, status: o.status, hash: o.hash, plan: sh.plan_hash, steps: sh.steps, nontrivial: sh.nontrivial };
                for (k, c) in sh.counts.iter().enumerate() {
                    totals[j * 512 + k] += c;
                }
                if o.bad() || o.status == shm::ST_HARNESS {
                    stop.fetch_add(1, SeqCst);
                }
            }
            unsafe { sys::_exit(0) }
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut st = 0;
        while unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut counts = vec![0; NAMES.len()];
    for j in 0..jobs {
        for (k, c) in counts.iter_mut().enumerate() {
            *c += totals[j * 512 + k];
        }
    }
    let mut traces = std::collections::HashSet::new();
    let mut plans = std::collections::HashSet::new();
    let mut nontriv = std::collections::HashSet::new();
    let (mut runs, mut steps, mut fp, mut violations) = (0, 0, 0, 0);
    let mut bad = Vec::new();
    let mut harness = None;
    for (i, r) in rows.iter().enumerate() {
        if r.state == 0 {
            continue;
        }
        runs += 1;
        steps += r.steps;
        traces.insert(r.hash);
        plans.insert(r.plan);
        if r.nontrivial != 0 {
            nontriv.insert((r.plan, r.hash));
        }
        fp = rng::mix(fp ^ r.hash ^ (r.status << 60));
        if r.status == shm::ST_HARNESS {
            harness.get_or_insert(i);
        } else if r.status != shm::ST_PASS {
            violations += 1;
            bad.push(i);
        }
    }
    let again = |i: usize| {
        let rs = run_seed(p, seed, build, first + i as u64);
        (first + i as u64, execute(p, &Input::Seed(rs), rs, false))
    };
    // One seed is one execution, so a failing run fails again. Should one not, it is run some more times
    // before it is left out.
    let mut violation = None;
    let mut unreproduced = 0;
    for i in bad {
        for _ in 0..6 {
            let o = again(i);
            if o.1.bad() {
                violation = Some(o);
                break;
            }
        }
        if violation.is_some() {
            break;
        }
        unreproduced += 1;
    }
    let harness = harness.map(again);
    Report {
        runs,
        wall,
        steps,
        counts,
        distinct_traces: traces.len() as u64,
        distinct_plans: plans.len() as u64,
        distinct_nontrivial: nontriv.len() as u64,
        fingerprint: fp,
        violation,
        violations,
        unreproduced,
        harness,
    }
}
pub struct Minimal {
    pub tape: Vec<u64>,
    pub switches: Option<Vec<[u64; 2]>>,
    pub outcome: Outcome,
    pub text: String,
    pub tried: u64,
}
fn grab() -> (Vec<u64>, Vec<[u32; 2]>, Vec<[u64; 2]>) {
    let sh = shm::get();
    (
        sh.tape[..sh.tape_len as usize].to_vec(),
        sh.spans[..sh.span_len as usize].to_vec(),
        sh.switches[..sh.switch_len as usize].to_vec(),
    )
}
/// Shrinks a failing run, keeping the class of its violation.
pub fn minimise(p: &Prop, run_seed: u64, secs: f64) -> Option<Minimal> {
    let t0 = Instant::now();
    let left = || t0.elapsed().as_secs_f64() < secs;
    let mut first = execute(p, &Input::Seed(run_seed), run_seed, false);
    for _ in 0..6 {
        if first.bad() {
            break;
        }
        first = execute(p, &Input::Seed(run_seed), run_seed, false);
    }
    if !first.bad() {
        return None;
    }
    let class = first.class.clone();
    let mut tried = 0;
    let (mut tape, _, _) = grab();
    let (mut spans, mut switches);
    let mut try_tape = |t: &[u64], sw: Option<&[[u64; 2]]>| -> Option<(Vec<u64>, Vec<[u32; 2]>, Vec<[u64; 2]>)> {
        tried += 1;
        let o = execute(p, &Input::Tape { tape: t, switches: sw }, run_seed, false);
        if o.bad() && o.class == class {
            Some(grab())
        } else {
            None
        }
    };
    if let Some((t, s, w)) = try_tape(&tape.clone(), None) {
        tape = t;
        spans = s;
        switches = w;
    } else {
        // Not reproducible from the tape alone: report it as found.
        let o = execute(p, &Input::Seed(run_seed), run_seed, true);
        return Some(Minimal { tape, switches: None, outcome: o, text: shm::text(), tried });
    }
    let trim = |t: &mut Vec<u64>| {
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    let mut progress = true;
    while progress && left() {
        progress = false;
        // Drop whole spans, longest first.
        let mut order = spans.clone();
        order.sort_by_key(|s| std::cmp::Reverse(s[1] - s[0]));
        let mut k = 0;
        while k < order.len() && left() {
            let [a, b] = order[k];
            k += 1;
            if b as usize > tape.len() {
                continue;
            }
            let mut t = tape.clone();
            t.drain(a as usize..b as usize);
            if let Some((t, s, w)) = try_tape(&t, None) {
                if t.len() < tape.len() || t < tape {
                    tape = t;
                    spans = s;
                    switches = w;
                    order = spans.clone();
                    order.sort_by_key(|s| std::cmp::Reverse(s[1] - s[0]));
                    k = 0;
                    progress = true;
                }
            }
        }
        // Lower single values, blocks first.
        let mut size = (tape.len() / 2).max(1);
        while size >= 1 && left() {
            let mut i = 0;
            while i < tape.len() && left() {
                let e = (i + size).min(tape.len());
                if tape[i..e].iter().any(|v| *v != 0) {
                    let mut t = tape.clone();
                    t[i..e].iter_mut().for_each(|v| *v = 0);
                    if let Some((t2, s, w)) = try_tape(&t, None) {
                        if t2 < tape || t2.len() < tape.len() {
                            tape = t2;
                            spans = s;
                            switches = w;
                            progress = true;
                        }
                    } else if size == 1 && i < tape.len() {
                        for v in [1, tape[i] / 2, tape[i].wrapping_sub(1)] {
                            if i < tape.len() && v < tape[i] && left() {
                                let mut t = tape.clone();
                                t[i] = v;
                                if let Some((t2, s, w)) = try_tape(&t, None) {
                                    if t2 < tape || t2.len() < tape.len() {
                                        tape = t2;
                                        spans = s;
                                        switches = w;
                                        progress = true;
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
    }
    trim(&mut tape);
    // Then the schedule: keep only the switches that matter.
    let mut explicit = None;
    if !switches.is_empty() {
        if try_tape(&tape, Some(&switches)).is_some() {
            let mut sw = switches.clone();
            let mut size = sw.len();
            let t1 = Instant::now();
            while size >= 1 && t1.elapsed().as_secs_f64() < secs / 2.0 {
                let mut i = 0;
                while i < sw.len() && t1.elapsed().as_secs_f64() < secs / 2.0 {
                    let e = (i + size).min(sw.len());
                    let mut c = sw.clone();
                    c.drain(i..e);
                    if try_tape(&tape, Some(&c)).is_some() {
                        sw = c;
                    } else {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            explicit = Some(sw);
        }
    }
    let o = execute(p, &Input::Tape { tape: &tape, switches: explicit.as_deref() }, run_seed, true);
    Some(Minimal { tape, switches: explicit, outcome: o, text: shm::text(), tried })
}
