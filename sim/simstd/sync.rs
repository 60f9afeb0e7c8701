pub use std::sync::*;
use crate::sim;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::panic::{RefUnwindSafe, UnwindSafe};

pub mod atomic;

type NotSend = PhantomData<*const ()>;

struct Poison(Cell<bool>);
impl Poison {
    const fn new() -> Self {
        Poison(Cell::new(false))
    }
}

// ---------------------------------------------------------------- RwLock
/// Lock state, following std's futex RwLock: flags are separate from the queues, woken writers compete again.
struct RwState {
    id: Cell<u32>,
    readers: Cell<u32>,
    writer: Cell<bool>,
    rw: Cell<bool>,
    ww: Cell<bool>,
    rq: UnsafeCell<Vec<usize>>,
    wq: UnsafeCell<Vec<usize>>,
    holders: UnsafeCell<Vec<usize>>,
}

impl RwState {
    const fn new() -> Self {
        RwState {
            id: Cell::new(0),
            readers: Cell::new(0),
            writer: Cell::new(false),
            rw: Cell::new(false),
            ww: Cell::new(false),
            rq: UnsafeCell::new(Vec::new()),
            wq: UnsafeCell::new(Vec::new()),
            holders: UnsafeCell::new(Vec::new()),
        }
    }
    fn id(&self) -> u32 {
        if self.id.get() == 0 {
            self.id.set(sim::new_obj());
        }
        self.id.get()
    }
    fn pref() -> bool {
        sim::simulated() && sim::sim().cfg.writer_pref
    }
    fn read_lockable(&self) -> bool {
        if Self::pref() {
            !self.writer.get() && !self.rw.get() && !self.ww.get()
        } else {
            !self.writer.get()
        }
    }
    fn free(&self) -> bool {
        !self.writer.get() && self.readers.get() == 0
    }
    fn h(&self) -> &mut Vec<usize> {
        unsafe { &mut *self.holders.get() }
    }
    fn add_holder(&self) {
        if sim::simulated() {
            self.h().push(sim::me());
            sim::hold(self.id());
        }
    }
    fn del_holder(&self) {
        if sim::simulated() {
            let m = sim::me();
            let h = self.h();
            if let Some(p) = h.iter().position(|x| *x == m) {
                h.swap_remove(p);
            }
            sim::unhold(self.id());
        }
    }
    fn desc(&self, what: &str) -> String {
        format!(
            "{} of lock #{} (held by {}{:?}{})",
            what,
            self.id(),
            if self.writer.get() { "writer " } else { "readers " },
            self.h(),
            if self.ww.get() { ", writer waiting" } else { "" }
        )
    }
    fn lock_read(&self) {
        sim::point(1, self.id());
        loop {
            if self.read_lockable() {
                self.readers.set(self.readers.get() + 1);
                self.add_holder();
                return;
            }
            self.rw.set(true);
            if sim::simulated() {
                unsafe { (*self.rq.get()).push(sim::me()) };
            }
            sim::waiting(self.id());
            sim::block(|| self.desc("read"));
        }
    }
    fn try_read(&self) -> bool {
        sim::point(5, self.id());
        if self.read_lockable() {
            self.readers.set(self.readers.get() + 1);
            self.add_holder();
            true
        } else {
            sim::probe(0);
            false
        }
    }
    fn lock_write(&self) {
        sim::point(2, self.id());
        let mut other = false;
        loop {
            if self.free() {
                self.writer.set(true);
                if other {
                    self.ww.set(true);
                }
                self.add_holder();
                return;
            }
            self.ww.set(true);
            other = true;
            if sim::simulated() {
                unsafe { (*self.wq.get()).push(sim::me()) };
            }
            sim::waiting(self.id());
            sim::block(|| self.desc("write"));
        }
    }
    fn try_write(&self) -> bool {
        sim::point(5, self.id());
        if self.free() {
            self.writer.set(true);
            self.add_holder();
            true
        } else {
            sim::probe(1);
            false
        }
    }
    fn wake_some(&self) {
        let rq = unsafe { &mut *self.rq.get() };
        let wq = unsafe { &mut *self.wq.get() };
        if !Self::pref() {
            self.rw.set(false);
            self.ww.set(false);
            for t in rq.drain(..) {
                sim::wake(t);
            }
            for t in wq.drain(..) {
                sim::wake(t);
            }
            return;
        }
        if self.ww.get() {
            self.ww.set(false);
            if !wq.is_empty() {
                let t = wq.remove(0);
                sim::wake(t);
                return;
            }
        }
        if self.rw.get() {
            self.rw.set(false);
            for t in rq.drain(..) {
                sim::wake(t);
            }
        }
    }
    /// Without this point a lock held over code without inner points would never be seen taken.
    fn before_release(&self) {
        if sim::simulated() && sim::sim().cfg.hold && !std::thread::panicking() {
            sim::point(15, self.id());
        }
    }
    fn unlock_read(&self) {
        self.before_release();
        self.readers.set(self.readers.get() - 1);
        self.del_holder();
        if self.free() && (self.ww.get() || self.rw.get()) {
            self.wake_some();
        }
        if !std::thread::panicking() {
            sim::point(3, self.id());
        }
    }
    fn unlock_write(&self) {
        self.before_release();
        self.writer.set(false);
        self.del_holder();
        if self.ww.get() || self.rw.get() {
            self.wake_some();
        }
        if !std::thread::panicking() {
            sim::point(4, self.id());
        }
    }
}

pub struct RwLock<T: ?Sized> {
    s: RwState,
    poison: Poison,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> UnwindSafe for RwLock<T> {}
impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _p: NotSend,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    panicking: bool,
    _p: NotSend,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { s: RwState::new(), poison: Poison::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.0.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.s.lock_read();
        let g = RwLockReadGuard { l: self, _p: PhantomData };
        if self.poison.0.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.s.try_read() {
            let g = RwLockReadGuard { l: self, _p: PhantomData };
            if self.poison.0.get() {
                Err(TryLockError::Poisoned(PoisonError::new(g)))
            } else {
                Ok(g)
            }
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.s.lock_write();
        let g = RwLockWriteGuard { l: self, panicking: std::thread::panicking(), _p: PhantomData };
        if self.poison.0.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.s.try_write() {
            let g = RwLockWriteGuard { l: self, panicking: std::thread::panicking(), _p: PhantomData };
            if self.poison.0.get() {
                Err(TryLockError::Poisoned(PoisonError::new(g)))
            } else {
                Ok(g)
            }
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.0.get()
    }
    pub fn clear_poison(&self) {
        self.poison.0.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.0.get();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
    /// harness only: is the lock held or queued on right now
    pub fn sim_busy(&self) -> bool {
        !self.s.free()
    }
    /// harness only: stable identity of the lock within the run
    pub fn sim_id(&self) -> u32 {
        self.s.id()
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.s.unlock_read();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.l.poison.0.set(true);
        }
        self.l.s.unlock_write();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("RwLock");
        match self.try_read() {
            Ok(g) => d.field("data", &&*g),
            Err(TryLockError::Poisoned(e)) => d.field("data", &&**e.get_ref()),
            Err(TryLockError::WouldBlock) => d.field("data", &format_args!("<locked>")),
        };
        d.field("poisoned", &self.poison.0.get());
        d.finish_non_exhaustive()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    s: RwState,
    poison: Poison,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    l: &'a Mutex<T>,
    panicking: bool,
    _p: NotSend,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { s: RwState::new(), poison: Poison::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.0.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { l: self, panicking: std::thread::panicking(), _p: PhantomData };
        if self.poison.0.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.s.lock_write();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.s.try_write() {
            self.guard().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.0.get()
    }
    pub fn clear_poison(&self) {
        self.poison.0.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.0.get();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.l.poison.0.set(true);
        }
        self.l.s.unlock_write();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ---------------------------------------------------------------- Condvar
pub struct Condvar {
    q: UnsafeCell<Vec<usize>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { q: UnsafeCell::new(Vec::new()) }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let l = g.l;
        unsafe { (*self.q.get()).push(sim::me()) };
        sim::quiet(|| drop(g));
        sim::block(|| "condvar".to_string());
        l.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        let q = unsafe { &mut *self.q.get() };
        if !q.is_empty() {
            sim::wake(q.remove(0));
        }
        sim::point(14, 0);
    }
    pub fn notify_all(&self) {
        let q = unsafe { &mut *self.q.get() };
        for t in q.drain(..) {
            sim::wake(t);
        }
        sim::point(14, 0);
    }
}

// ---------------------------------------------------------------- Once, OnceLock, LazyLock
struct OnceState {
    id: Cell<u32>,
    /// 0 new, 1 running, 2 done, 3 poisoned
    st: Cell<u8>,
    q: UnsafeCell<Vec<usize>>,
}
impl OnceState {
    const fn new() -> Self {
        OnceState { id: Cell::new(0), st: Cell::new(0), q: UnsafeCell::new(Vec::new()) }
    }
    fn id(&self) -> u32 {
        if self.id.get() == 0 {
            self.id.set(sim::new_obj());
        }
        self.id.get()
    }
    fn wake_all(&self) {
        for t in unsafe { (*self.q.get()).drain(..) } {
            sim::wake(t);
        }
    }
    /// true: the caller must initialise and then call finish(ok)
    fn begin(&self) -> bool {
        if self.st.get() == 2 {
            return false;
        }
        sim::point(8, self.id());
        loop {
            match self.st.get() {
                0 => {
                    self.st.set(1);
                    return true;
                }
                2 => return false,
                3 => panic!("Once instance has previously been poisoned"),
                _ => {
                    if sim::simulated() {
                        unsafe { (*self.q.get()).push(sim::me()) };
                    }
                    sim::block(|| format!("once #{}", self.id()));
                }
            }
        }
    }
    fn finish(&self, st: u8) {
        self.st.set(st);
        self.wake_all();
        if !std::thread::panicking() {
            sim::point(8, self.id());
        }
    }
}
struct OnceGuard<'a>(&'a OnceState, u8);
impl Drop for OnceGuard<'_> {
    fn drop(&mut self) {
        self.0.finish(self.1);
    }
}

pub struct Once {
    s: OnceState,
}
unsafe impl Sync for Once {}
unsafe impl Send for Once {}
impl Once {
    pub const fn new() -> Self {
        Once { s: OnceState::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        if self.s.begin() {
            let mut g = OnceGuard(&self.s, 3);
            f();
            g.1 = 2;
        }
    }
    pub fn is_completed(&self) -> bool {
        self.s.st.get() == 2
    }
}

pub struct OnceLock<T> {
    s: OnceState,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T: UnwindSafe> UnwindSafe for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { s: OnceState::new(), v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        sim::point(8, self.s.id());
        if self.s.st.get() == 2 {
            unsafe { (*self.v.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if self.s.begin() {
            let mut g = OnceGuard(&self.s, 0);
            let v = f();
            unsafe { *self.v.get() = Some(v) };
            g.1 = 2;
        }
        unsafe { (*self.v.get()).as_ref().unwrap() }
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.get_or_init(|| t.take().unwrap());
        match t {
            None => Ok(()),
            Some(t) => Err(t),
        }
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.s = OnceState::new();
        self.v.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(unsafe { &*self.v.get() }).finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let c = Self::new();
        let _ = c.set(t);
        c
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    c: OnceLock<T>,
    f: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T: RefUnwindSafe + UnwindSafe, F: UnwindSafe> RefUnwindSafe for LazyLock<T, F> {}
impl<T: UnwindSafe, F: UnwindSafe> UnwindSafe for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { c: OnceLock::new(), f: Cell::new(Some(f)) }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.c.get_or_init(|| match this.f.take() {
            Some(f) => f(),
            None => panic!("LazyLock instance has previously been poisoned"),
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.c.fmt(f)
    }
}
