//! A tokio whose scheduling belongs to the simulator.
//!
//! Covers the runtime part of tokio's API (`rt`, `rt-multi-thread`): `Runtime`, `Builder`, `Handle`,
//! `task::{spawn, spawn_blocking, yield_now, JoinHandle, JoinError, JoinSet, AbortHandle}`.
//! Tasks run on simulated worker threads; which task a worker takes, when workers and callers run, and
//! how many workers there are is decided by the run's seed.
pub mod runtime;
pub mod task;
pub use task::spawn;
