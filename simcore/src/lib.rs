//! The simulator: one process, one seed, one execution.
//!
//! * `sched`  - simulated threads; exactly one runs at a time and only the seeded scheduler decides which
//! * `alloc`  - global allocator: scheduling point, memory accounting, refusal of absurd requests
//! * `code`   - scheduling points inside the library's code, at any edge of its control flow
//! * `sys`    - the few system calls needed, plus interception of futex/getrandom/sleep/sched_yield
//! * `shm`    - memory shared with the supervising process (results survive abort/kill)
//! * `src`    - choice tape: every random decision of a run, recordable, replayable, shrinkable
//! * `rng`    - PRNG
pub mod alloc;
pub mod code;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod src;
pub mod sys;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;
