//! The scheduler. Real OS threads carry the simulated threads, but exactly one of them runs at any moment:
//! at every scheduling point the running one asks the seeded policy who goes next and hands the baton over.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::thread::Thread;

/// splitmix64
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// at each point switch with probability num/1000
    Random(u32),
    /// random priorities with priority-change points at the given step numbers
    Pct(Vec<u64>),
    /// run the current task until it blocks, except at the listed (decision number, task)
    Replay(Vec<(u32, u16)>),
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub seed: u64,
    pub policy: Policy,
    /// true: a waiting writer blocks new readers (std on Linux); false: readers get in
    pub writer_pref: bool,
    /// a scheduling point right before a lock is released, so that others find it held
    pub hold: bool,
    pub max_steps: u64,
    /// number of rayon workers reported
    pub workers: usize,
    /// per mille of joins whose second half is stolen, and of those how many run as a real simulated thread
    pub steal: u32,
    pub steal_thread: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Blocked,
    Done,
}

struct Task {
    name: String,
    st: St,
    label: String,
    blocked_on: String,
    wake: Arc<(AtomicBool, UnsafeThread)>,
    joiners: Vec<usize>,
    prio: u64,
    /// locks held: (lock, taken by client code rather than by the library)
    held: Vec<(u32, bool)>,
    waiting: u32,
}
struct UnsafeThread(UnsafeCell<Option<Thread>>);
unsafe impl Sync for UnsafeThread {}
unsafe impl Send for UnsafeThread {}

pub struct Sim {
    pub cfg: SimCfg,
    rng: Rng,
    /// separate stream for rayon decisions
    pub rng2: Rng,
    tasks: Vec<Task>,
    current: usize,
    pub steps: u64,
    decisions: u32,
    pub deviations: Vec<(u32, u16)>,
    replay_pos: usize,
    pub hash: u64,
    next_obj: u32,
    pub switches: u64,
    pub blocks: u64,
    pub log: Option<Vec<String>>,
    pub probes: [u64; 64],
}

struct Global(UnsafeCell<Option<Box<Sim>>>);
unsafe impl Sync for Global {}
static SIM: Global = Global(UnsafeCell::new(None));
static ACTIVE: AtomicBool = AtomicBool::new(false);

/// called with (kind, description) on deadlock or step limit; must not return
pub type Fatal = fn(&str, String) -> !;
static mut FATAL: Option<Fatal> = None;
pub fn set_fatal(f: Fatal) {
    unsafe { FATAL = Some(f) }
}

std::thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static CLIENT: Cell<bool> = const { Cell::new(false) };
}

/// locks taken inside `f` count as taken by the client
pub fn client<R>(f: impl FnOnce() -> R) -> R {
    let o = CLIENT.with(|c| c.replace(true));
    let r = f();
    CLIENT.with(|c| c.set(o));
    r
}
pub fn hold(lock: u32) {
    if simulated() {
        let c = CLIENT.with(|c| c.get());
        sim().tasks[me()].held.push((lock, c));
    }
}
pub fn unhold(lock: u32) {
    if simulated() {
        let h = &mut sim().tasks[me()].held;
        if let Some(p) = h.iter().rposition(|x| x.0 == lock) {
            h.remove(p);
        }
    }
}
/// number of locks the current task holds
pub fn holding() -> usize {
    if simulated() {
        sim().tasks[me()].held.len()
    } else {
        0
    }
}
/// the lock the current task is about to wait for
pub fn waiting(lock: u32) {
    if simulated() {
        sim().tasks[me()].waiting = lock;
    }
}

/// Run `f` without scheduling points (harness-internal bookkeeping, e.g. reference computations)
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| q.set(q.get() + 1));
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    let _d = D;
    f()
}

/// Run `f` as if it were not part of the simulation at all (no seam, no scheduling). `f` must not touch simulated locks.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let m = ME.with(|m| m.replace(usize::MAX));
    let r = f();
    ME.with(|x| x.set(m));
    r
}

#[inline]
pub fn simulated() -> bool {
    ACTIVE.load(SeqCst) && ME.try_with(|m| m.get() != usize::MAX).unwrap_or(false)
}

/// Only the baton holder may call this.
#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().expect("no simulation") }
}
#[inline]
pub fn me() -> usize {
    ME.with(|m| m.get())
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100_0000_01B3).rotate_left(23) ^ (v << 7)
}

impl Sim {
    fn runnable(&self) -> Vec<usize> {
        self.tasks.iter().enumerate().filter(|(_, t)| t.st == St::Runnable).map(|(i, _)| i).collect()
    }
    /// who runs next
    fn choose(&mut self) -> Option<usize> {
        let run = self.runnable();
        if run.is_empty() {
            return None;
        }
        let cur = self.current;
        let cur_ok = run.contains(&cur);
        let default = if cur_ok { cur } else { run[0] };
        if run.len() == 1 {
            return Some(run[0]);
        }
        let d = self.decisions;
        self.decisions += 1;
        let next = match &self.cfg.policy {
            Policy::Random(p) => {
                if cur_ok && !self.rng.chance(*p as u64, 1000) {
                    cur
                } else {
                    *self.rng.pick(&run)
                }
            }
            Policy::Pct(points) => {
                if points.contains(&self.steps) && cur_ok {
                    let lo = self.tasks.iter().map(|t| t.prio).min().unwrap_or(1);
                    self.tasks[cur].prio = lo.saturating_sub(1);
                }
                *run.iter().max_by_key(|i| (self.tasks[**i].prio, usize::MAX - **i)).unwrap()
            }
            Policy::Replay(dev) => {
                while self.replay_pos < dev.len() && dev[self.replay_pos].0 < d {
                    self.replay_pos += 1;
                }
                if self.replay_pos < dev.len() && dev[self.replay_pos].0 == d {
                    let want = dev[self.replay_pos].1 as usize;
                    if run.contains(&want) {
                        want
                    } else {
                        default
                    }
                } else {
                    default
                }
            }
        };
        if next != default {
            self.deviations.push((d, next as u16));
        }
        Some(next)
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.tasks.iter().enumerate() {
            if t.st != St::Done {
                s.push_str(&format!(
                    "[task {} {} op={} holds={} {}] ",
                    i,
                    t.name,
                    t.label,
                    t.held.iter().map(|(l, c)| format!("#{}{}", l, if *c { "c" } else { "" })).collect::<Vec<_>>().join(","),
                    if t.st == St::Blocked { format!("blocked on {}", t.blocked_on) } else { "runnable".into() }
                ));
            }
        }
        // every lock involved was taken by client code, and nobody waits for a lock of its own
        let b: Vec<&Task> = self.tasks.iter().filter(|t| t.st == St::Blocked).collect();
        let own = b.iter().any(|t| t.held.iter().any(|h| h.0 == t.waiting));
        let lib = b.iter().any(|t| t.held.iter().any(|h| !h.1));
        s.push_str(if own {
            "KIND=self"
        } else if lib {
            "KIND=library"
        } else {
            "KIND=client"
        });
        s
    }
}

fn fatal(kind: &str, d: String) -> ! {
    unsafe {
        match FATAL {
            Some(f) => f(kind, d),
            None => {
                eprintln!("simulation fatal: {kind}: {d}");
                std::process::abort()
            }
        }
    }
}

fn hand_over(next: usize) {
    let s = sim();
    let mine = me();
    if next == mine {
        return;
    }
    s.switches += 1;
    s.current = next;
    let w = s.tasks[next].wake.clone();
    let my = s.tasks[mine].wake.clone();
    let dead = s.tasks[mine].st == St::Done;
    w.0.store(true, SeqCst);
    unsafe {
        if let Some(t) = &*w.1 .0.get() {
            t.unpark();
        }
    }
    if dead {
        return;
    }
    wait_baton(&my);
}

fn wait_baton(my: &(AtomicBool, UnsafeThread)) {
    while !my.0.swap(false, SeqCst) {
        std::thread::park();
    }
}

fn next_or_deadlock() -> usize {
    let s = sim();
    match s.choose() {
        Some(n) => n,
        None => {
            let d = s.describe();
            fatal("deadlock", d)
        }
    }
}

/// A scheduling point. `kind` and `obj` go into the event log.
pub fn point(kind: u32, obj: u32) {
    if !simulated() || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    let s = sim();
    let m = me();
    debug_assert_eq!(s.current, m);
    s.steps += 1;
    s.hash = mix(s.hash, ((m as u64) << 40) | ((kind as u64) << 32) | obj as u64);
    if let Some(l) = &mut s.log {
        l.push(format!("{} t{} {} #{}", s.steps, m, kind_name(kind), obj));
    }
    if s.steps > s.cfg.max_steps {
        let d = s.describe();
        fatal("steplimit", d);
    }
    let n = next_or_deadlock();
    hand_over(n);
}

pub fn kind_name(k: u32) -> &'static str {
    match k {
        1 => "read-lock",
        2 => "write-lock",
        3 => "read-unlock",
        4 => "write-unlock",
        5 => "try-lock",
        6 => "mutex-lock",
        7 => "mutex-unlock",
        8 => "once",
        9 => "atomic",
        10 => "spawn",
        11 => "join",
        12 => "yield",
        13 => "syscall",
        14 => "condvar",
        15 => "holding",
        20 => "op",
        _ => "point",
    }
}

/// Record an event in the log hash (no scheduling)
pub fn note(tag: u64) {
    if simulated() && QUIET.with(|q| q.get()) == 0 {
        let s = sim();
        s.hash = mix(s.hash, tag);
        if let Some(l) = &mut s.log {
            l.push(format!("{} t{} note {:x}", s.steps, s.current, tag));
        }
    }
}
pub fn log(f: impl FnOnce() -> String) {
    if simulated() {
        let s = sim();
        if s.log.is_some() {
            let x = format!("{} t{} {}", s.steps, s.current, f());
            s.log.as_mut().unwrap().push(x);
        }
    }
}

pub fn probe(i: usize) {
    if simulated() {
        sim().probes[i] += 1;
    }
}

pub fn label(l: impl FnOnce() -> String) {
    if simulated() {
        let m = me();
        sim().tasks[m].label = l();
    }
}
pub fn current_label() -> String {
    if simulated() {
        sim().tasks[me()].label.clone()
    } else {
        String::new()
    }
}

pub fn new_obj() -> u32 {
    if simulated() {
        let s = sim();
        s.next_obj += 1;
        s.next_obj
    } else {
        0
    }
}

/// Block the current task (which the caller has put in some wait queue) until `wake` makes it runnable.
pub fn block(what: impl FnOnce() -> String) {
    if !simulated() {
        fatal("deadlock", format!("blocked outside the simulation on {}", what()));
    }
    let s = sim();
    let m = me();
    s.blocks += 1;
    s.tasks[m].st = St::Blocked;
    s.tasks[m].blocked_on = what();
    let n = next_or_deadlock();
    hand_over(n);
}
pub fn wake(t: usize) {
    if simulated() {
        let s = sim();
        if s.tasks[t].st == St::Blocked {
            s.tasks[t].st = St::Runnable;
            s.tasks[t].blocked_on.clear();
        }
    }
}

pub struct Task2 {
    id: usize,
    h: Option<std::thread::JoinHandle<()>>,
}

impl Task2 {
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn finished(&self) -> bool {
        sim().tasks[self.id].st == St::Done
    }
    pub fn join(mut self) {
        point(11, self.id as u32);
        loop {
            let s = sim();
            if s.tasks[self.id].st == St::Done {
                break;
            }
            s.tasks[self.id].joiners.push(me());
            let id = self.id;
            block(|| format!("join of task {}", id));
        }
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

/// Spawn a simulated thread. `f` must not unwind (wrap it in catch_unwind).
pub fn spawn(name: &str, f: Box<dyn FnOnce() + Send + 'static>) -> Task2 {
    let s = sim();
    let id = s.tasks.len();
    let wake_cell = Arc::new((AtomicBool::new(false), UnsafeThread(UnsafeCell::new(None))));
    let prio = s.rng.next() >> 8;
    s.tasks.push(Task {
        name: name.to_string(),
        st: St::Runnable,
        label: String::new(),
        blocked_on: String::new(),
        wake: wake_cell.clone(),
        joiners: vec![],
        prio,
        held: vec![],
        waiting: 0,
    });
    let wc = wake_cell.clone();
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            ME.with(|m| m.set(id));
            wait_baton(&wc);
            f();
            let s = sim();
            s.tasks[id].st = St::Done;
            let j = std::mem::take(&mut s.tasks[id].joiners);
            for t in j {
                wake(t);
            }
            let n = next_or_deadlock();
            hand_over(n);
        })
        .expect("spawn");
    unsafe { *wake_cell.1 .0.get() = Some(h.thread().clone()) };
    point(10, id as u32);
    Task2 { id, h: Some(h) }
}

/// Run a simulation; the calling thread becomes task 0. Everything spawned must be joined by `f`.
pub fn run<R>(cfg: SimCfg, log: bool, f: impl FnOnce() -> R) -> R {
    let wake_cell = Arc::new((AtomicBool::new(false), UnsafeThread(UnsafeCell::new(Some(std::thread::current())))));
    let seed = cfg.seed;
    let mut rng = Rng::new(seed ^ 0x5c4ed);
    let prio = rng.next() >> 8;
    let s = Sim {
        rng,
        rng2: Rng::new(seed ^ 0x4a70),
        cfg,
        tasks: vec![Task {
            name: "main".into(),
            st: St::Runnable,
            label: String::new(),
            blocked_on: String::new(),
            wake: wake_cell,
            joiners: vec![],
            prio,
            held: vec![],
            waiting: 0,
        }],
        current: 0,
        steps: 0,
        decisions: 0,
        deviations: vec![],
        replay_pos: 0,
        hash: 0xcbf2_9ce4_8422_2325,
        next_obj: 0,
        switches: 0,
        blocks: 0,
        log: if log { Some(vec![]) } else { None },
        probes: [0; 64],
    };
    unsafe { *SIM.0.get() = Some(Box::new(s)) };
    ME.with(|m| m.set(0));
    ACTIVE.store(true, SeqCst);
    let r = f();
    r
}
/// End of the simulation: the caller is a plain thread again; statistics stay readable through `sim()`.
pub fn end() {
    ME.with(|m| m.set(usize::MAX));
    ACTIVE.store(false, SeqCst);
}
