pub use std::thread::*;
use crate::sim;
use std::any::Any;
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub fn yield_now() {
    if sim::simulated() {
        sim::point(12, 0)
    } else {
        std::thread::yield_now()
    }
}
pub fn sleep(d: std::time::Duration) {
    if sim::simulated() {
        sim::point(12, 1);
        sim::point(12, 1);
    } else {
        std::thread::sleep(d)
    }
}

struct Slot<T>(UnsafeCell<Option<std::result::Result<T, Box<dyn Any + Send>>>>);
unsafe impl<T> Sync for Slot<T> {}
unsafe impl<T> Send for Slot<T> {}

pub struct JoinHandle<T> {
    task: Option<sim::Task2>,
    slot: Arc<Slot<T>>,
    real: Option<std::thread::JoinHandle<T>>,
}
impl<T> JoinHandle<T> {
    pub fn join(mut self) -> Result<T> {
        if let Some(r) = self.real.take() {
            return r.join();
        }
        self.task.take().unwrap().join();
        unsafe { (*self.slot.0.get()).take().unwrap() }
    }
    pub fn is_finished(&self) -> bool {
        match (&self.real, &self.task) {
            (Some(r), _) => r.is_finished(),
            (_, Some(t)) => t.finished(),
            _ => true,
        }
    }
}

fn spawn_any<T: Send, F: FnOnce() -> T + Send>(f: F) -> JoinHandle<T> {
    let slot = Arc::new(Slot(UnsafeCell::new(None)));
    let s2 = slot.clone();
    let b: Box<dyn FnOnce() + Send> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        unsafe { *s2.0.get() = Some(r) };
    });
    // callers guarantee the borrowed data outlives the task (spawn: 'static; scope: joined before return)
    let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
    JoinHandle { task: Some(sim::spawn("lib", b)), slot, real: None }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if !sim::simulated() {
        return JoinHandle { task: None, slot: Arc::new(Slot(UnsafeCell::new(None))), real: Some(std::thread::spawn(f)) };
    }
    spawn_any(f)
}

pub struct Scope<'scope, 'env: 'scope> {
    tasks: UnsafeCell<Vec<Box<dyn FnOnce() -> bool + 'scope>>>,
    _p: std::marker::PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
}
unsafe impl Sync for Scope<'_, '_> {}
pub struct ScopedJoinHandle<'scope, T> {
    task: Arc<UnsafeCell<Option<sim::Task2>>>,
    slot: Arc<Slot<T>>,
    _p: std::marker::PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        if let Some(t) = unsafe { (*self.task.get()).take() } {
            t.join();
        }
        unsafe { (*self.slot.0.get()).take().unwrap() }
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let mut h = spawn_any(f);
        let task = Arc::new(UnsafeCell::new(h.task.take()));
        let t2 = task.clone();
        let slot = h.slot.clone();
        let s2 = slot.clone();
        unsafe {
            (*self.tasks.get()).push(Box::new(move || {
                if let Some(t) = (*t2.get()).take() {
                    t.join();
                    return matches!(&*s2.0.get(), Some(Err(_)));
                }
                false
            }))
        };
        ScopedJoinHandle { task, slot, _p: std::marker::PhantomData }
    }
}
/// Simulated threads only (the library itself never opens a scope outside a simulation).
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { tasks: UnsafeCell::new(vec![]), _p: std::marker::PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| f(unsafe { &*(&s as *const _) })));
    let mut bad = false;
    loop {
        let v = unsafe { std::mem::take(&mut *s.tasks.get()) };
        if v.is_empty() {
            break;
        }
        for j in v {
            bad |= j();
        }
    }
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(_) if bad => panic!("a scoped thread panicked"),
        Ok(v) => v,
    }
}
