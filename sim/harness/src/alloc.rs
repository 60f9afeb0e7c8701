//! Global allocator with accounting: one allocation above the cap is a memory bomb.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Cap;
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
/// live bytes and the limit on them
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);

#[cold]
fn bomb(n: usize) -> ! {
    CAP.store(usize::MAX, Relaxed);
    LIVE_CAP.store(usize::MAX, Relaxed);
    crate::run::violate("memory", &format!("allocation of {n} bytes, {} live", LIVE.load(Relaxed)))
}
unsafe impl GlobalAlloc for Cap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Relaxed);
        note(n);
        System.realloc(p, l, n)
    }
}
#[inline]
fn note(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if n > CAP.load(Relaxed) || live > LIVE_CAP.load(Relaxed) {
        bomb(n);
    }
}
