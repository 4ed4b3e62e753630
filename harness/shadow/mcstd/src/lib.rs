//! A stand-in for `std` that puts every scheduling and file-system action of the code compiled
//! against it under the control of an external explorer.
//!
//! The crate re-exports the real `std` and shadows `sync`, `thread` and `fs`.  The code under test
//! is compiled, unmodified, with `--extern std=<this crate>`.
//!
//! Without `MC_TRACE` in the environment everything is passed through.
//! With it, exactly one thread runs at a time, every synchronisation operation is a scheduling
//! point, and every decision is read from `MC_PREFIX` (then defaults) and appended to the trace.

pub use ::std::*;

pub mod rt;
pub mod sync;
pub mod thread;
pub mod fs;
