//! Simulated `std`: re-exports the real one, with `sync`, `thread` and `time` replaced by versions whose every
//! operation is a scheduling point of the seeded simulator in `sim`. Outside a simulation the replacements
//! behave like the real ones for a single thread.
#![allow(clippy::all)]
pub use std::*;

pub mod sim;
pub mod sync;
pub mod thread;
pub mod time;
