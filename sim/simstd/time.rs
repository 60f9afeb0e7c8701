//! Simulated time: the library has no timers, so the clock is the step counter (1 step = 1 microsecond).
pub use std::time::*;
