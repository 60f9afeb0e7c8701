//! Simulated rayon scheduler core. The real `rayon` iterators run on top of it; the simulator decides the number of
//! workers, whether the second half of each join is stolen, which half runs first, and whether the stolen half runs as
//! a separate simulated thread interleaved at every scheduling point.
use simstd::sim;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! { static WORKER: Cell<Option<usize>> = const { Cell::new(None) }; }

pub fn max_num_threads() -> usize {
    65535
}
pub fn current_num_threads() -> usize {
    if sim::simulated() {
        sim::sim().cfg.workers.max(1)
    } else {
        1
    }
}
pub fn current_thread_index() -> Option<usize> {
    WORKER.with(|w| w.get())
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    sim::point(12, 2);
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

fn on_worker<R>(idx: usize, f: impl FnOnce() -> R) -> R {
    let old = WORKER.with(|w| w.replace(Some(idx)));
    struct D(Option<usize>);
    impl Drop for D {
        fn drop(&mut self) {
            let o = self.0;
            let _ = WORKER.try_with(|w| w.set(o));
        }
    }
    let _d = D(old);
    f()
}

type Res<T> = Result<T, Box<dyn Any + Send>>;
fn halt<R>(f: impl FnOnce() -> R) -> Res<R> {
    catch_unwind(AssertUnwindSafe(f))
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

/// half of a join that somebody else may run; lives in the frame of the owner, who waits until it is done
struct Part {
    f: Option<Box<dyn FnOnce() + Send + 'static>>,
    done: bool,
    waiter: Option<usize>,
}
impl Part {
    fn finish(&mut self) {
        self.done = true;
        if let Some(w) = self.waiter.take() {
            IDLE.get().retain(|t| *t != w);
            sim::wake(w);
        }
    }
}
/// only the running simulated thread touches these
struct Shared<T>(std::cell::UnsafeCell<Vec<T>>);
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut Vec<T> {
        unsafe { &mut *self.0.get() }
    }
}
/// parts nobody has taken yet
static QUEUE: Shared<SendPtr<Part>> = Shared(std::cell::UnsafeCell::new(vec![]));
/// workers waiting for a stolen part, who take others' parts meanwhile
static IDLE: Shared<usize> = Shared(std::cell::UnsafeCell::new(vec![]));
thread_local! {
    /// this simulated thread belongs to the pool (callers from outside block instead of helping)
    static POOL: Cell<bool> = const { Cell::new(false) };
}
fn run_part(p: *mut Part) {
    unsafe {
        let f = (*p).f.take().unwrap();
        f();
        (*p).finish();
    }
}
fn wait_for(p: *mut Part) {
    loop {
        if unsafe { (*p).done } {
            return;
        }
        let q = QUEUE.get();
        if POOL.with(|x| x.get()) && !q.is_empty() {
            let i = sim::sim().rng2.below(q.len() as u64) as usize;
            let other = q.swap_remove(i);
            sim::probe(13);
            run_part(other.get());
            continue;
        }
        unsafe { (*p).waiter = Some(sim::me()) };
        if POOL.with(|x| x.get()) {
            IDLE.get().push(sim::me());
        }
        sim::block(|| "a part of a parallel operation taken by another worker".to_string());
        IDLE.get().retain(|t| *t != sim::me());
        unsafe { (*p).waiter = None };
    }
}
fn start(name: &str, p: *mut Part, pool: bool) -> sim::Task2 {
    let p = SendPtr(p);
    sim::spawn(
        name,
        Box::new(move || {
            POOL.with(|x| x.set(pool));
            run_part(p.get());
        }),
    )
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !sim::simulated() {
        let ra = a(FnContext::new(false));
        let rb = b(FnContext::new(false));
        return (ra, rb);
    }
    sim::probe(8);
    let cfg = &sim::sim().cfg;
    let (steal, steal_thread, workers) = (cfg.steal as u64, cfg.steal_thread as u64, cfg.workers.max(1) as u64);
    // every such steal is an operating-system thread: bound them
    let many = sim::sim().probes[10] >= 100;
    let r = &mut sim::sim().rng2;
    let injected = current_thread_index().is_none();
    if injected && !many && r.chance(steal_thread, 1000) {
        // called from outside the pool: a worker does it all, the caller waits
        sim::probe(10);
        let mut slot: Option<Res<(RA, RB)>> = None;
        let me = r.below(workers) as usize;
        {
            let out = SendPtr(&mut slot as *mut _);
            let f: Box<dyn FnOnce() + Send + '_> = Box::new(move || unsafe { *out.get() = Some(halt(|| on_worker(me, || join_context(a, b)))) });
            // finished before this frame returns
            let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
            let mut part = Part { f: Some(f), done: false, waiter: None };
            start("rayon", &mut part, true).join();
        }
        return slot.take().unwrap().unwrap_or_else(|e| resume_unwind(e));
    }
    let me = current_thread_index().unwrap_or_else(|| r.below(workers) as usize);
    // stealing makes the splitting finer: it ends after a while, as the run would not
    let stolen = workers > 1 && sim::sim().probes[8] < 4000 && r.chance(steal, 1000);
    let threaded = stolen && r.chance(steal_thread, 1000) && !many;
    let queued = stolen && !threaded && (!IDLE.get().is_empty() || r.chance(steal_thread, 2000));
    let other = if stolen { (me + 1 + r.below(workers - 1) as usize) % workers as usize } else { me };
    if threaded || queued {
        let mut slot: Option<Res<RB>> = None;
        let p = SendPtr(&mut slot as *mut _);
        let f: Box<dyn FnOnce() + Send + '_> = Box::new(move || unsafe {
            // a worker that helps while it waits keeps its own number
            let i = current_thread_index().unwrap_or(other);
            *p.get() = Some(halt(|| on_worker(i, || b(FnContext::new(true)))));
        });
        // finished before this frame returns
        let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
        let mut part = Part { f: Some(f), done: false, waiter: None };
        let pp = &mut part as *mut Part;
        let mut task = None;
        if threaded {
            sim::probe(10);
            task = Some(start("rayon", pp, true));
        } else {
            QUEUE.get().push(SendPtr(pp));
            for t in std::mem::take(IDLE.get()) {
                sim::wake(t);
            }
            sim::point(12, 3);
        }
        let ra = halt(|| on_worker(me, || a(FnContext::new(injected))));
        if let Some(i) = QUEUE.get().iter().position(|x| x.get() == pp) {
            // nobody took it
            QUEUE.get().swap_remove(i);
            run_part(pp);
        }
        wait_for(pp);
        if let Some(t) = task {
            t.join();
        }
        let rb = slot.take().unwrap();
        return match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) => resume_unwind(e),
            (_, Err(e)) => resume_unwind(e),
        };
    }
    if stolen {
        sim::probe(9);
        // the thief finished before the owner started
        let rb = halt(|| on_worker(other, || b(FnContext::new(true))));
        let ra = halt(|| on_worker(me, || a(FnContext::new(injected))));
        return match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) => resume_unwind(e),
            (_, Err(e)) => resume_unwind(e),
        };
    }
    let ra = on_worker(me, || a(FnContext::new(injected)));
    let rb = on_worker(me, || b(FnContext::new(injected)));
    (ra, rb)
}

// ---- scopes: spawned jobs run after the body, in seeded order
macro_rules! scope_type {
    ($S:ident, $spawn:ident) => {
        pub struct $S<'scope> {
            jobs: RefCell<Vec<Box<dyn FnOnce(&$S<'scope>) + Send + 'scope>>>,
            _m: PhantomData<Box<dyn FnOnce(&$S<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl Sync for $S<'_> {}
        unsafe impl Send for $S<'_> {}
        impl<'scope> $S<'scope> {
            pub fn $spawn<B: FnOnce(&$S<'scope>) + Send + 'scope>(&self, b: B) {
                self.jobs.borrow_mut().push(Box::new(b));
            }
            pub fn spawn_broadcast<B: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope>(&self, b: B) {
                self.jobs.borrow_mut().push(Box::new(move |s| b(s, BroadcastContext { i: 0, n: 1, _p: PhantomData })));
            }
            fn run(&self) -> Res<()> {
                let mut r = Ok(());
                loop {
                    let j = {
                        let mut v = self.jobs.borrow_mut();
                        if v.is_empty() {
                            break;
                        }
                        let i = if sim::simulated() { sim::sim().rng2.below(v.len() as u64) as usize } else { 0 };
                        v.remove(i)
                    };
                    if let Err(e) = halt(|| j(self)) {
                        r = Err(e);
                    }
                }
                r
            }
        }
        impl fmt::Debug for $S<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("Scope")
            }
        }
    };
}
scope_type!(Scope, spawn);
scope_type!(ScopeFifo, spawn_fifo);

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { jobs: RefCell::new(vec![]), _m: PhantomData };
    let r = halt(|| op(&s));
    let e = s.run();
    match (r, e) {
        (Ok(v), Ok(())) => v,
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo { jobs: RefCell::new(vec![]), _m: PhantomData };
    let r = halt(|| op(&s));
    let e = s.run();
    match (r, e) {
        (Ok(v), Ok(())) => v,
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    if sim::simulated() {
        // detached job: joined implicitly when the simulation drains
        let _ = sim::spawn(
            "rayon-spawn",
            Box::new(move || {
                let _ = halt(f);
            }),
        );
    } else {
        f()
    }
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}

pub struct BroadcastContext<'a> {
    i: usize,
    n: usize,
    _p: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|i| op(BroadcastContext { i, n, _p: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("The global thread pool has already been initialized.")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct DefaultSpawn;
pub struct ThreadBuilder {
    i: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _s: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { n: 0, _s: PhantomData }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn stack_size(self, _s: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { current_num_threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if sim::simulated() && self.n > 0 {
            sim::sim().cfg.workers = self.n;
        }
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        if !sim::simulated() {
            return op();
        }
        let old = std::mem::replace(&mut sim::sim().cfg.workers, self.n);
        let r = halt(|| on_worker(0, op));
        sim::sim().cfg.workers = old;
        r.unwrap_or_else(|e| resume_unwind(e))
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
}
