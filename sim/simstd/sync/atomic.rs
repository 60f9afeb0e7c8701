//! Atomics whose every access is a scheduling point (sequentially consistent: one thread runs at a time).
pub use std::sync::atomic::*;
use crate::sim;
use std::fmt;

macro_rules! common {
    ($n:ident, $t:ty) => {
        #[repr(transparent)]
        #[derive(Default)]
        pub struct $n(std::sync::atomic::$n);
        impl $n {
            pub const fn new(v: $t) -> Self {
                Self(std::sync::atomic::$n::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                sim::point(9, 0);
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                self.0.store(v, o);
                sim::point(9, 1)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                sim::point(9, 2);
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sim::point(9, 3);
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sim::point(9, 3);
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                sim::point(9, 3);
                self.0.fetch_update(s, f, g)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl From<$t> for $n {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}
macro_rules! ops { ($n:ident, $t:ty, $($m:ident),*) => { impl $n { $(pub fn $m(&self, v: $t, o: Ordering) -> $t { sim::point(9, 4); self.0.$m(v, o) })* } } }
macro_rules! int {
    ($($n:ident $t:ty),*) => { $(common!($n, $t); ops!($n, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);)* };
}
int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
common!(AtomicBool, bool);
ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
