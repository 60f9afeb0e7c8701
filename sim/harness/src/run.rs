//! Plans, forked execution, search, minimisation, evidence.
use serde_json::{json, Value};
use simstd::sim::{self, Policy, Rng, SimCfg};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub k: String,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}
pub fn op(k: &str, a: u64, b: u64, c: u64) -> Op {
    Op { k: k.into(), a, b, c }
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub knobs: BTreeMap<String, i64>,
    pub threads: Vec<Vec<Op>>,
    pub faults: Vec<Op>,
    pub sim: SimCfg,
}
impl Plan {
    pub fn new(prop: &str, seed: u64, rng: &mut Rng) -> Plan {
        Plan { prop: prop.into(), seed, knobs: BTreeMap::new(), threads: vec![], faults: vec![], sim: schedule(rng) }
    }
    pub fn knob(&self, k: &str) -> i64 {
        *self.knobs.get(k).unwrap_or(&0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.knobs.insert(k.into(), v);
    }
    fn ops_json(v: &[Op]) -> Value {
        v.iter().map(|o| json!([o.k, o.a, o.b, o.c])).collect()
    }
    fn ops_from(v: &Value) -> Vec<Op> {
        v.as_array()
            .map(|a| {
                a.iter()
                    .map(|o| op(o[0].as_str().unwrap_or(""), o[1].as_u64().unwrap_or(0), o[2].as_u64().unwrap_or(0), o[3].as_u64().unwrap_or(0)))
                    .collect()
            })
            .unwrap_or_default()
    }
    pub fn to_json(&self) -> Value {
        let pol = match &self.sim.policy {
            Policy::Random(p) => json!({"random": p}),
            Policy::Pct(v) => json!({"pct": v}),
            Policy::Replay(v) => json!({"replay": v.iter().map(|(a,b)| json!([a,b])).collect::<Vec<_>>()}),
        };
        json!({"prop": self.prop, "seed": self.seed, "knobs": self.knobs,
            "threads": self.threads.iter().map(|t| Plan::ops_json(t)).collect::<Vec<_>>(),
            "faults": Plan::ops_json(&self.faults),
            "schedule": {"seed": self.sim.seed, "policy": pol, "writer_pref": self.sim.writer_pref, "hold": self.sim.hold, "max_steps": self.sim.max_steps,
                "workers": self.sim.workers, "steal": self.sim.steal, "steal_thread": self.sim.steal_thread}})
    }
    pub fn from_json(v: &Value) -> Plan {
        let s = &v["schedule"];
        let p = &s["policy"];
        let policy = if let Some(n) = p["random"].as_u64() {
            Policy::Random(n as u32)
        } else if let Some(a) = p["pct"].as_array() {
            Policy::Pct(a.iter().map(|x| x.as_u64().unwrap_or(0)).collect())
        } else {
            Policy::Replay(
                p["replay"]
                    .as_array()
                    .map(|a| a.iter().map(|x| (x[0].as_u64().unwrap_or(0) as u32, x[1].as_u64().unwrap_or(0) as u16)).collect())
                    .unwrap_or_default(),
            )
        };
        let n = |k: &str| s[k].as_u64().unwrap_or(0);
        Plan {
            prop: v["prop"].as_str().unwrap_or("").into(),
            seed: v["seed"].as_u64().unwrap_or(0),
            knobs: v["knobs"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap_or(0))).collect()).unwrap_or_default(),
            threads: v["threads"].as_array().map(|a| a.iter().map(Plan::ops_from).collect()).unwrap_or_default(),
            faults: Plan::ops_from(&v["faults"]),
            sim: SimCfg {
                seed: n("seed"),
                policy,
                writer_pref: s["writer_pref"].as_bool().unwrap_or(true),
                hold: s["hold"].as_bool().unwrap_or(false),
                max_steps: n("max_steps"),
                workers: n("workers") as usize,
                steal: n("steal") as u32,
                steal_thread: n("steal_thread") as u32,
            },
        }
    }
}
pub fn schedule(rng: &mut Rng) -> SimCfg {
    let policy = match rng.below(10) {
        0 => Policy::Random(0),
        1 | 2 => Policy::Random(30),
        3..=5 => Policy::Random(300),
        6 => Policy::Random(900),
        _ => {
            let n = 1 + rng.below(5);
            let range = *rng.pick(&[60u64, 300, 1500]);
            Policy::Pct((0..n).map(|_| rng.below(range)).collect())
        }
    };
    SimCfg {
        seed: rng.next(),
        policy,
        writer_pref: rng.chance(3, 4),
        max_steps: 400_000,
        workers: *rng.pick(&[1usize, 2, 4, 8]),
        steal: *rng.pick(&[0u32, 0, 200, 1000]),
        steal_thread: *rng.pick(&[0u32, 100, 500]),
        hold: rng.chance(1, 3),
    }
}

// ------------------------------------------------------------------ the record a run leaves behind
pub const NCOUNT: usize = 64;
pub const C_FAULT0: usize = 0; // 0..6 syscall faults
pub const C_DAMAGE: usize = 6;
pub const C_HEAL: usize = 7;
pub const C_OPS: usize = 8;
pub const C_ERR: usize = 9;
pub const C_OKCHECK: usize = 10;
pub const C_PANIC: usize = 11;
pub const C_LISTING: usize = 12;
pub const C_SHORT: usize = 13;
pub const C_EINTR: usize = 14;
pub const C_WERR: usize = 15;
pub const C_UNPARSE: usize = 16;
pub const C_DROP: usize = 17;
pub const C_TRUNC: usize = 18;
pub const C_PARSE: usize = 19;
pub const C_DECODE: usize = 20;
pub const C_LOOKUP: usize = 21;
pub const C_LINK: usize = 22;
pub const C_WALK: usize = 23;
pub const C_OPEN: usize = 24;
pub const C_NOTSEEN: usize = 25;
pub const C_RETRY: usize = 26;
pub const C_SKIP: usize = 27;
pub const C_MERGE: usize = 28;
pub const C_ALLOCF: usize = 29;
pub const C_READ: usize = 30;
pub const C_JSON: usize = 31;
pub const C_ORDER: usize = 32;
pub const COUNT_NAMES: [&str; 33] = [
    "fault:open fails", "fault:mmap fails", "fault:opendir fails", "fault:readdir fails", "fault:stat fails", "fault:file write",
    "fault:bytes damaged", "damage healed", "operations", "operations returning an error", "values checked", "fault:client panic",
    "directory listings permuted", "fault:short write", "fault:interrupted write", "fault:writer error", "unparse", "handles dropped",
    "fault:file truncated", "parses", "decodes", "lookups", "links", "walks", "opens", "transitional states observed", "retries", "skipped", "merges", "fault:memory mapping fails", "fault:file read", "printed as JSON", "listing orders compared",
];
const NDEV: usize = 60_000;
#[repr(C)]
pub struct Shm {
    pub status: u32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub ndev: u32,
    pub class: [u8; 256],
    pub msg: [u8; 6000],
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub hash: u64,
    pub counters: [u64; NCOUNT],
    pub probes: [u64; 64],
    pub devs: [(u32, u16); NDEV],
}
static mut SHM: *mut Shm = std::ptr::null_mut();
fn shm() -> &'static mut Shm {
    unsafe {
        if SHM.is_null() {
            let n = std::mem::size_of::<Shm>();
            let p = libc::syscall(libc::SYS_mmap, 0usize, n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1i64, 0i64);
            assert!(p != -1);
            SHM = p as *mut Shm;
        }
        &mut *SHM
    }
}
pub fn count(i: usize) {
    shm().counters[i] += 1;
}
pub fn counted(i: usize) -> u64 {
    shm().counters[i]
}
fn put_str(d: &mut [u8], s: &str) {
    let n = s.len().min(d.len() - 1);
    d[..n].copy_from_slice(&s.as_bytes()[..n]);
    d[n] = 0;
}
fn get_str(d: &[u8]) -> String {
    let n = d.iter().position(|x| *x == 0).unwrap_or(d.len());
    String::from_utf8_lossy(&d[..n]).into_owned()
}
fn export_stats() {
    let s = sim::sim();
    let m = shm();
    m.steps = s.steps;
    m.switches = s.switches;
    m.blocks = s.blocks;
    m.hash = s.hash;
    m.probes = s.probes;
    let n = s.deviations.len().min(NDEV);
    m.ndev = n as u32;
    m.devs[..n].copy_from_slice(&s.deviations[..n]);
    if let Some(l) = &s.log {
        // replay runs print their event log
        let _ = std::fs::write("events.log", l.join("\n"));
    }
}
static DONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// report a violation and end the run
pub fn violate(class: &str, msg: &str) -> ! {
    if DONE.swap(true, Relaxed) {
        loop {
            std::thread::park()
        }
    }
    crate::alloc::CAP.store(usize::MAX, Relaxed);
    crate::alloc::LIVE_CAP.store(usize::MAX, Relaxed);
    sim::outside(|| {
        let m = shm();
        if m.status != 4 {
            export_stats();
        }
        put_str(&mut m.class, class);
        put_str(&mut m.msg, msg);
        m.status = 2;
        unsafe { libc::_exit(0) }
    })
}
/// the harness itself is at fault
pub fn harness_error(msg: &str) -> ! {
    sim::outside(|| {
        let m = shm();
        put_str(&mut m.class, "harness");
        put_str(&mut m.msg, msg);
        m.status = 3;
        unsafe { libc::_exit(0) }
    })
}
fn fatal(kind: &str, d: String) -> ! {
    violate(kind, &d)
}

// ------------------------------------------------------------------ panics
pub struct Boom(pub u64);
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Boom>() {
            return;
        }
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 2000 {
            if !g.is_empty() {
                g.push_str(" / ");
            }
            g.push_str(&format!("{m} at {l}"));
        }
    }));
}
const SETUP: &str = "setting up";
/// whose panic it was
fn blame(what: &str) -> ! {
    let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let first = p.split(" / ").next().unwrap_or("").to_string();
    let loc = first.rsplit(" at ").next().unwrap_or("").to_string();
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or("");
    let file = match file.find("/repo/") {
        Some(p) => &file[p + 6..],
        None if file.contains("harness/src") || file.starts_with("src/") && !std::path::Path::new("/repo").join(file).exists() => {
            // never on the tree as it is: something the harness relies on does not hold
            // (where it was is part of the class: a plan that is cut down too far fails elsewhere)
            let class = if what == SETUP { format!("setup:{loc}") } else { "unexpected".to_string() };
            violate(&class, &format!("an assumption of the harness fails during {what}: {p}"))
        }
        None => file.rsplit("/src/").next().unwrap_or(file),
    };
    violate(&format!("panic:{file}"), &format!("{what}: {p}"))
}
/// run client code; a panic coming out of it is a violation, a deliberate `Boom` is handed back
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Boom> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => match e.downcast::<Boom>() {
            Ok(b) => Err(*b),
            Err(_) => {
                blame(what)
            }
        },
    }
}
/// simulated threads running the plan's op lists
pub fn threads(plan: &Plan, f: impl Fn(usize, &Op) + Send + Sync + 'static) {
    let f = std::sync::Arc::new(f);
    let mut hs = vec![];
    for (i, ops) in plan.threads.iter().enumerate() {
        let ops = ops.clone();
        let f = f.clone();
        hs.push(sim::spawn(
            &format!("client{i}"),
            Box::new(move || {
                for o in &ops {
                    sim::label(|| format!("{}({},{},{})", o.k, o.a, o.b, o.c));
                    sim::log(|| format!("-- {}({},{},{})", o.k, o.a, o.b, o.c));
                    sim::point(20, 0);
                    count(C_OPS);
                    let _ = guard(&o.k, || f(i, o));
                    sim::label(|| "idle".into());
                    if sim::holding() != 0 {
                        violate("lock-kept", &format!("after {}({},{},{}) the thread still holds {} lock(s)", o.k, o.a, o.b, o.c, sim::holding()));
                    }
                }
                drop(f);
            }),
        ));
    }
    for h in hs {
        h.join();
    }
}
/// run on a simulated client thread of its own and wait for it
pub fn on_thread(name: &str, f: impl FnOnce() + Send + 'static) {
    let n = name.to_string();
    let h = sim::spawn(
        name,
        Box::new(move || {
            sim::label(|| n.clone());
            let _ = guard(&n, f);
            if sim::holding() != 0 {
                violate("lock-kept", &format!("after {n} the thread still holds a lock"));
            }
        }),
    );
    h.join();
}
pub fn fail(class: &str, r: Result<(), String>) {
    if let Err(e) = r {
        violate(class, &e)
    }
}

// ------------------------------------------------------------------ one run in a child process
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub hash: u64,
    pub counters: [u64; NCOUNT],
    pub probes: [u64; 64],
    pub devs: Vec<(u32, u16)>,
}
pub fn scratch() -> String {
    let base = if std::fs::metadata("/dev/shm").is_ok() && std::fs::write(format!("/dev/shm/.wzsim{}", std::process::id()), b"").is_ok() {
        let _ = std::fs::remove_file(format!("/dev/shm/.wzsim{}", std::process::id()));
        "/dev/shm"
    } else {
        "/tmp"
    };
    let d = format!("{base}/wzsim.{}", std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn clean(dir: &str) {
    // only ever the scratch directory made above
    if dir.contains("/wzsim.") {
        let _ = std::fs::remove_dir_all(dir);
    }
}
pub fn execute(plan: &Plan, dir: &str, log: bool) -> Outcome {
    let m = shm();
    unsafe {
        std::ptr::write_bytes(m as *mut Shm as *mut u8, 0, std::mem::offset_of!(Shm, devs));
    }
    let run = format!("{dir}/run");
    clean_files(&run);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        child(plan, &run, log);
    }
    let mut st = 0;
    let start = Instant::now();
    let mut hung = false;
    let mut spins = 0u32;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            break;
        }
        spins += 1;
        if spins < 2000 {
            std::hint::spin_loop();
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(200));
        }
        if start.elapsed() > Duration::from_secs(180) {
            hung = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
    }
    let mut o = Outcome {
        status: m.status,
        class: get_str(&m.class),
        msg: get_str(&m.msg),
        steps: m.steps,
        switches: m.switches,
        blocks: m.blocks,
        hash: m.hash,
        counters: m.counters,
        probes: m.probes,
        devs: m.devs[..m.ndev as usize].to_vec(),
    };
    let label = get_str(&m.class);
    if m.status == 0 {
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            o.status = 2;
            if s == libc::SIGXCPU || s == libc::SIGKILL && !hung && cpu_spent() {
                o.class = "hang".into();
                o.msg = "the run used up its processor time without reaching a scheduling point budget: endless loop".into();
            } else if s == libc::SIGKILL {
                o.status = 3;
                o.msg = "run killed (wall clock or memory)".into();
            } else {
                o.class = format!("crash:signal {s}");
                o.msg = format!("process died of signal {s} (11/6: wild access or stack overflow) {label}");
            }
        } else {
            o.status = 3;
            o.msg = format!("run ended without a result (status {st})");
        }
    }
    o
}
fn cpu_spent() -> bool {
    false
}
fn clean_files(run: &str) {
    if let Ok(rd) = std::fs::read_dir(run) {
        let mut any_dir = false;
        for e in rd.flatten() {
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                any_dir = true;
            } else {
                let _ = std::fs::remove_file(e.path());
            }
        }
        if any_dir {
            clean(run);
        }
    }
    std::fs::create_dir_all(run).unwrap();
}
fn child(plan: &Plan, run: &str, log: bool) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let lim = libc::rlimit { rlim_cur: 30, rlim_max: 31 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        // the library prints about unknown properties; a dying process prints its last words
        let n = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_WRONLY, 0) as i32;
        libc::dup2(n, 1);
        if !log {
            libc::dup2(n, 2);
        }
    }
    std::env::set_current_dir(run).unwrap();
    install_hook();
    sim::set_fatal(fatal);
    // building the world does not count against the allocation cap of the code under test
    let _ = simstd::sim::run(plan.sim.clone(), log, || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::props::run(plan)));
        if r.is_err() {
            let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            // the scratch directory is the harness's own affair
            if p.contains("scratch ") || p.contains("/disk.rs:") || p.contains("/run.rs:") {
                harness_error(&format!("panic outside client code: {p}"));
            }
            blame(SETUP)
        }
    });
    sim::outside(|| {
        export_stats();
        shm().status = 1;
        unsafe { libc::_exit(0) }
    })
}
// ------------------------------------------------------------------ known findings
pub struct Known {
    pub prop: String,
    pub class: String,
    pub contains: Vec<String>,
    pub what: String,
    /// only in runs whose plan has this trait
    pub plan: String,
}
pub fn load_known(verif: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| Known {
                    prop: f["property"].as_str().unwrap_or("").into(),
                    class: f["class"].as_str().unwrap_or("").into(),
                    contains: f["contains"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
                    what: f["what"].as_str().unwrap_or("").into(),
                    plan: f["plan"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}
fn is_known(k: &[Known], p: &Plan, o: &Outcome) -> Option<usize> {
    k.iter().position(|k| k.prop == p.prop && (k.plan.is_empty() || crate::props::plan_is(p, &k.plan)) && k.class == o.class && k.contains.iter().all(|c| o.msg.contains(c.as_str())))
}

// ------------------------------------------------------------------ minimisation
struct Shrink<'a> {
    dir: &'a str,
    class: String,
    known: &'a [Known],
    deadline: Instant,
    tries: u64,
}
impl Shrink<'_> {
    /// does the plan still fail the same way? returns it with the schedule pinned
    fn test(&mut self, p: &Plan) -> Option<(Plan, Outcome)> {
        if Instant::now() > self.deadline {
            return None;
        }
        let mut cand = vec![p.clone()];
        if !matches!(p.sim.policy, Policy::Random(0)) {
            for (i, pol) in [Policy::Random(0), Policy::Random(300), Policy::Random(900)].into_iter().enumerate() {
                let mut q = p.clone();
                q.sim.policy = pol;
                q.sim.seed = p.sim.seed.wrapping_add(i as u64);
                cand.push(q);
            }
        }
        for q in cand {
            self.tries += 1;
            let o = execute(&q, self.dir, false);
            if o.status == 2 && o.class == self.class && is_known(self.known, p, &o).is_none() {
                let mut q = q;
                if o.devs.len() < NDEV {
                    q.sim.policy = Policy::Replay(o.devs.clone());
                }
                return Some((q, o));
            }
        }
        None
    }
    fn run(&mut self, start: Plan) -> Option<(Plan, Outcome)> {
        let (mut best, mut out) = self.test(&start)?;
        let mut progress = true;
        while progress && Instant::now() < self.deadline {
            progress = false;
            let try_it = |s: &mut Self, q: Plan, best: &mut Plan, out: &mut Outcome| -> bool {
                if let Some((p, o)) = s.test(&q) {
                    *best = p;
                    *out = o;
                    true
                } else {
                    false
                }
            };
            // whole threads
            let mut i = 0;
            while i < best.threads.len() {
                let mut q = best.clone();
                if q.threads[i].is_empty() {
                    i += 1;
                    continue;
                }
                q.threads[i].clear();
                if try_it(self, q, &mut best, &mut out) {
                    progress = true;
                }
                i += 1;
            }
            // trailing empty threads
            if best.threads.iter().any(|t| t.is_empty()) {
                let mut q = best.clone();
                q.threads.retain(|t| !t.is_empty());
                if try_it(self, q, &mut best, &mut out) {
                    progress = true;
                }
            }
            // chunks of ops
            for t in 0..best.threads.len() {
                let mut size = best.threads[t].len() / 2;
                while size >= 1 {
                    let mut i = 0;
                    while i + size <= best.threads[t].len() {
                        let mut q = best.clone();
                        q.threads[t].drain(i..i + size);
                        if try_it(self, q, &mut best, &mut out) {
                            progress = true;
                        } else {
                            i += size;
                        }
                    }
                    size /= 2;
                }
                let mut i = 0;
                while t < best.threads.len() && i < best.threads[t].len() && best.threads[t].len() > 1 {
                    let mut q = best.clone();
                    q.threads[t].remove(i);
                    if try_it(self, q, &mut best, &mut out) {
                        progress = true;
                    } else {
                        i += 1;
                    }
                }
            }
            let mut i = 0;
            while i < best.faults.len() {
                let mut q = best.clone();
                q.faults.remove(i);
                if try_it(self, q, &mut best, &mut out) {
                    progress = true;
                } else {
                    i += 1;
                }
            }
            for k in best.knobs.keys().cloned().collect::<Vec<_>>() {
                let v = best.knobs[&k];
                for nv in [0, v / 2, v - 1] {
                    if nv < best.knobs[&k] && nv >= 0 {
                        let mut q = best.clone();
                        q.set(&k, nv);
                        if try_it(self, q, &mut best, &mut out) {
                            progress = true;
                            break;
                        }
                    }
                }
            }
            if best.sim.steal > 0 {
                let mut q = best.clone();
                q.sim.steal = 0;
                try_it(self, q, &mut best, &mut out);
            }
            // schedule deviations
            if let Policy::Replay(_) = &best.sim.policy {
                let len = |p: &Plan| if let Policy::Replay(d) = &p.sim.policy { d.len() } else { 0 };
                let mut size = (len(&best) / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < len(&best) && Instant::now() < self.deadline {
                        let Policy::Replay(mut d) = best.sim.policy.clone() else { break };
                        let e = (i + size).min(d.len());
                        d.drain(i..e);
                        let mut q = best.clone();
                        q.sim.policy = Policy::Replay(d);
                        self.tries += 1;
                        let o = execute(&q, self.dir, false);
                        if o.status == 2 && o.class == self.class && is_known(self.known, &q, &o).is_none() {
                            q.sim.policy = Policy::Replay(o.devs.clone());
                            if len(&q) >= len(&best) {
                                i += size;
                                continue;
                            }
                            best = q;
                            out = o;
                            progress = true;
                        } else {
                            i += size;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
            }
        }
        Some((best, out))
    }
}

// ------------------------------------------------------------------ search
pub struct Tally {
    runs: u64,
    steps: u64,
    switches: u64,
    blocks: u64,
    hashes: HashSet<u64>,
    counters: [u64; NCOUNT],
    probes: [u64; 64],
    known: BTreeMap<usize, u64>,
    samples: Vec<Value>,
    bad: Option<(Plan, Outcome)>,
    nontrivial: u64,
}
fn worker(prop: &str, base: u64, w: u64, n: u64, secs: u64, known: &[Known], stop: &std::sync::atomic::AtomicBool) -> Tally {
    let dir = scratch();
    let mut t = Tally {
        runs: 0,
        steps: 0,
        switches: 0,
        blocks: 0,
        hashes: HashSet::new(),
        counters: [0; NCOUNT],
        probes: [0; 64],
        known: BTreeMap::new(),
        samples: vec![],
        bad: None,
        nontrivial: 0,
    };
    let end = Instant::now() + Duration::from_secs(secs);
    let mut i = w;
    while Instant::now() < end && !stop.load(Relaxed) {
        let seed = Rng::new(base.wrapping_mul(0x1000_0001).wrapping_add(i)).next();
        let plan = crate::props::plan(prop, seed);
        let o = execute(&plan, &dir, false);
        t.runs += 1;
        t.steps += o.steps;
        t.switches += o.switches;
        t.blocks += o.blocks;
        for k in 0..NCOUNT {
            t.counters[k] += o.counters[k];
            t.probes[k] += o.probes[k];
        }
        if o.status == 1 && crate::props::nontrivial(prop, &o) {
            t.nontrivial += 1;
            if t.hashes.len() < 2_000_000 {
                t.hashes.insert(o.hash);
            }
        }
        if t.samples.len() < 3 && w == 0 {
            let ops: usize = plan.threads.iter().map(|x| x.len()).sum();
            t.samples.push(json!({"seed": seed, "threads": plan.threads.len(), "ops": ops, "steps": o.steps, "switches": o.switches,
                "event_hash": format!("{:016x}", o.hash), "first_ops": plan.threads.first().map(|t| t.iter().take(4).map(|o| format!("{}({},{},{})", o.k, o.a, o.b, o.c)).collect::<Vec<_>>()),
                "faults": plan.faults.iter().map(|o| format!("{}({},{},{})", o.k, o.a, o.b, o.c)).collect::<Vec<_>>()}));
        }
        match o.status {
            1 => {}
            2 => {
                if let Some(k) = is_known(known, &plan, &o) {
                    *t.known.entry(k).or_default() += 1;
                } else {
                    t.bad = Some((plan, o));
                    stop.store(true, Relaxed);
                    break;
                }
            }
            _ => {
                t.bad = Some((plan, o));
                stop.store(true, Relaxed);
                break;
            }
        }
        i += n;
    }
    clean(&dir);
    t
}

pub fn rerun(plan: &Plan, log: bool) -> Outcome {
    let dir = scratch();
    let o = execute(plan, &dir, log);
    if log {
        if let Ok(s) = std::fs::read_to_string(format!("{dir}/run/events.log")) {
            for l in s.lines().rev().take(400).collect::<Vec<_>>().into_iter().rev() {
                println!("{l}");
            }
        }
    }
    clean(&dir);
    o
}

pub fn check(prop: &str, tier: &str, verif: &str) -> i32 {
    let known = load_known(verif);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("WZSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 25 });
    let workers: u64 = std::env::var("WZSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let start = Instant::now();
    let prop_no: u64 = prop[1..].parse().unwrap_or(0);
    // corpus of earlier failures first
    let mut bad: Option<(Plan, Outcome)> = None;
    let mut corpus = 0u64;
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(format!("{verif}/regress/{prop}")) {
        let mut fs: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        fs.sort();
        let dir = scratch();
        for f in fs {
            let Ok(s) = std::fs::read_to_string(&f) else { continue };
            let Ok(v) = serde_json::from_str::<Value>(&s) else { continue };
            let p = Plan::from_json(&v["plan"]);
            let o = execute(&p, &dir, false);
            corpus += 1;
            if o.status == 2 {
                match is_known(&known, &p, &o) {
                    Some(k) => *known_hits.entry(k).or_default() += 1,
                    None => {
                        bad = Some((p, o));
                        break;
                    }
                }
            }
        }
        clean(&dir);
    }
    let mut tallies: Vec<Value> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut bads: Vec<(Plan, Outcome)> = bad.into_iter().collect();
    let mut sum = [0u64; NCOUNT];
    let mut probes = [0u64; 64];
    let (mut runs, mut steps, mut switches, mut blocks, mut nontriv) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    if bads.is_empty() {
        let dir = scratch();
        // a shared stop flag
        let flag = unsafe {
            let p = libc::syscall(libc::SYS_mmap, 0usize, 4096usize, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1i64, 0i64);
            &*(p as *const std::sync::atomic::AtomicBool)
        };
        let mut pids = vec![];
        for w in 0..workers {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                unsafe { SHM = std::ptr::null_mut() };
                let t = worker(prop, base.wrapping_mul(1000).wrapping_add(prop_no), w, workers, secs, &known, flag);
                let v = json!({"runs": t.runs, "steps": t.steps, "switches": t.switches, "blocks": t.blocks, "nontrivial": t.nontrivial,
                    "counters": t.counters.to_vec(), "probes": t.probes.to_vec(),
                    "known": t.known.iter().map(|(k,n)| json!([k,n])).collect::<Vec<_>>(), "samples": t.samples,
                    "bad": t.bad.map(|(p,o)| json!({"plan": p.to_json(), "class": o.class, "msg": o.msg, "status": o.status}))});
                std::fs::write(format!("{dir}/w{w}.json"), v.to_string()).unwrap();
                let hs: Vec<u8> = t.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
                std::fs::write(format!("{dir}/w{w}.hash"), hs).unwrap();
                unsafe { libc::_exit(0) };
            }
            pids.push(pid);
        }
        for p in pids {
            let mut st = 0;
            unsafe { libc::waitpid(p, &mut st, 0) };
        }
        for w in 0..workers {
            let Ok(s) = std::fs::read_to_string(format!("{dir}/w{w}.json")) else {
                eprintln!("harness error: worker {w} left no result");
                clean(&dir);
                return 3;
            };
            let v: Value = serde_json::from_str(&s).unwrap();
            let g = |k: &str| v[k].as_u64().unwrap_or(0);
            runs += g("runs");
            steps += g("steps");
            switches += g("switches");
            blocks += g("blocks");
            nontriv += g("nontrivial");
            for k in 0..NCOUNT {
                sum[k] += v["counters"][k].as_u64().unwrap_or(0);
                probes[k] += v["probes"][k].as_u64().unwrap_or(0);
            }
            for k in v["known"].as_array().unwrap() {
                *known_hits.entry(k[0].as_u64().unwrap() as usize).or_default() += k[1].as_u64().unwrap();
            }
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            if let Some(b) = v["bad"].as_object() {
                let p = Plan::from_json(&b["plan"]);
                let o = Outcome {
                    status: b["status"].as_u64().unwrap() as u32,
                    class: b["class"].as_str().unwrap().into(),
                    msg: b["msg"].as_str().unwrap().into(),
                    steps: 0,
                    switches: 0,
                    blocks: 0,
                    hash: 0,
                    counters: [0; NCOUNT],
                    probes: [0; 64],
                    devs: vec![],
                };
                bads.push((p, o));
            }
            if let Ok(b) = std::fs::read(format!("{dir}/w{w}.hash")) {
                for c in b.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            tallies.push(json!(g("runs")));
        }
        clean(&dir);
    }
    let search = start.elapsed().as_secs_f64();
    let mut code = 0;
    bads.sort_by_key(|b| b.1.status);
    let mut verdict = json!(null);
    if let Some((p, o)) = bads.into_iter().next() {
        if o.status != 2 {
            eprintln!("harness error in {}: {}\nplan {}", prop, o.msg, p.to_json());
            return 3;
        }
        let dir = scratch();
        let sh_secs = if tier == "thorough" { 120 } else { 40 };
        let mut sh = Shrink { dir: &dir, class: o.class.clone(), known: &known, deadline: Instant::now() + Duration::from_secs(sh_secs), tries: 0 };
        let (mp, mo) = sh.run(p.clone()).unwrap_or((p.clone(), o.clone()));
        let tries = sh.tries;
        clean(&dir);
        let path = format!("{verif}/replays/{prop}-{:016x}.json", p.seed);
        let _ = std::fs::create_dir_all(format!("{verif}/replays"));
        let file = json!({"property": prop, "class": mo.class, "violation": mo.msg, "event_hash": format!("{:016x}", mo.hash), "found_by_seed": p.seed, "shrink_runs": tries,
            "plan": mp.to_json(), "original": p.to_json()});
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        println!("{}: {}", mo.class, mo.msg);
        println!("VIOLATION property={prop} replay={path}");
        verdict = json!({"class": mo.class, "replay": path});
        code = 1;
    }
    for (k, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {} (seen {} times)", prop, known[*k].what, n);
    }
    // listed findings are announced even when this run's schedules did not happen to hit them
    for (i, k) in known.iter().enumerate() {
        if k.prop == prop && !known_hits.contains_key(&i) {
            println!("KNOWN-FINDING: property={} {} (not reached in this run)", prop, k.what);
        }
    }
    let hours = search / 3600.0;
    let faults: BTreeMap<&str, u64> = COUNT_NAMES.iter().enumerate().filter(|(i, n)| n.starts_with("fault:") && sum[*i] > 0).map(|(i, n)| (&n[6..], sum[i])).collect();
    let work: BTreeMap<&str, u64> = COUNT_NAMES.iter().enumerate().filter(|(i, n)| !n.starts_with("fault:") && sum[*i] > 0).map(|(i, n)| (*n, sum[i])).collect();
    let mut faults = json!(faults);
    for (i, n) in [(0, "contention makes try_read/try_write fail"), (1, "contention makes try_write fail"), (8, "parallel joins"), (9, "parallel halves stolen"), (10, "parallel work handed to another simulated thread"), (13, "waiting workers that ran others' parts")] {
        if probes[i] > 0 {
            faults[n] = json!(probes[i]);
        }
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": crate::props::level(prop),
        "coverage": {
            "evaluations": runs + corpus, "distinct_nontrivial": hashes.len(), "rule": crate::props::rule(prop), "samples": samples,
            "distinct_measure": "distinct hashes of the complete event log (every scheduling point with its task and lock, every injected fault) among the non-trivial runs",
            "simulated_runs": runs, "seeds_per_hour": (runs as f64 / hours).round(), "corpus_replays": corpus, "nontrivial_runs": nontriv,
            "simulated_time": {"unit": "scheduling steps", "steps": steps, "task_switches": switches, "times_a_task_blocked": blocks,
                "note": "the library reads no clock; simulated time is the number of scheduling steps"},
            "faults_injected": faults, "work_done": work, "search_processes": workers,
            "components_real": [if crate::world::ORDERED { "wz_reader built from /repo without rayon and with indexmap (all modules)" } else { "wz_reader built from /repo (all modules)" }, "memmap2, flate2/zlib-ng, image, texture2ddecoder, hashbrown/ahash, rayon's iterators", "std::fs over a scratch directory"],
            "components_simulated": ["std::sync locks, Once, atomics, std::thread as seen by wz_reader", "rayon-core (work stealing)", "libc open/mmap/munmap/opendir/readdir/statx/write/close (real calls behind a fault seam)", "getrandom (constant)"],
            "known_findings_met": known_hits.iter().map(|(k, n)| json!([known[*k].what, n])).collect::<Vec<_>>(),
            "violation": verdict,
        },
        "assumptions": ["the generator's files are what real writers produce (checked against the reader only)", "sequentially consistent memory: one simulated thread runs at a time"],
        "violations": code, "wall_s": start.elapsed().as_secs_f64(),
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if std::env::var("WZSIM_NO_EVIDENCE").is_err() {
        std::fs::write(format!("{verif}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!("{prop} {tier}: {runs} runs, {} distinct non-trivial, {steps} steps in {search:.1} s", hashes.len());
    code
}

pub fn plan_prop(file: &str) -> String {
    let v: Value = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    v["plan"]["prop"].as_str().unwrap_or("").into()
}
pub fn replay(file: &str, log: bool) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let p = Plan::from_json(&v["plan"]);
    let o = rerun(&p, log);
    println!("status {} class {} hash {:016x} steps {}\n{}", o.status, o.class, o.hash, o.steps, o.msg);
    let same = o.status == 2 && o.class == v["class"].as_str().unwrap_or("") && o.msg == v["violation"].as_str().unwrap_or("");
    if o.status == 2 {
        println!("{}", if same { "reproduced exactly" } else { "a violation, but not the recorded one" });
        println!("VIOLATION property={} replay={file}", p.prop);
        1
    } else if o.status == 1 {
        0
    } else {
        3
    }
}
pub fn one_seed(prop: &str, seed: u64, log: bool) -> i32 {
    let p = crate::props::plan(prop, seed);
    println!("{}", p.to_json());
    let o = rerun(&p, log);
    println!("status {} class {} hash {:016x} steps {} switches {}\n{}", o.status, o.class, o.hash, o.steps, o.switches, o.msg);
    for (i, n) in COUNT_NAMES.iter().enumerate() {
        if o.counters[i] > 0 {
            println!("  {n}: {}", o.counters[i]);
        }
    }
    (o.status == 2) as i32
}
/// every seed twice: the event log must be the same
pub fn selftest(prop: &str, n: u64) -> i32 {
    let dir = scratch();
    let mut bad = 0;
    for i in 0..n {
        let p = crate::props::plan(prop, Rng::new(i).next());
        let log = std::env::var("WZSIM_LOGSEED").is_ok_and(|s| s == p.seed.to_string());
        let keep = |n: u32| {
            if log {
                let _ = std::fs::copy(format!("{dir}/run/events.log"), format!("/tmp/events.{n}"));
            }
        };
        let a = execute(&p, &dir, log);
        keep(1);
        let b = execute(&p, &dir, log);
        keep(2);
        if (a.status, a.hash, a.steps, &a.class, &a.msg) != (b.status, b.hash, b.steps, &b.class, &b.msg) {
            println!("seed {}: {:?} {:x} {} / {:?} {:x} {}", p.seed, a.class, a.hash, a.steps, b.class, b.hash, b.steps);
            bad += 1;
        }
        // and from its own recorded schedule
        let mut q = p.clone();
        q.sim.policy = Policy::Replay(a.devs.clone());
        let c = execute(&q, &dir, false);
        if a.devs.len() < NDEV && (a.status, &a.class, a.steps, a.hash) != (c.status, &c.class, c.steps, c.hash) {
            println!("seed {} from its schedule: {:?} {} / {:?} {}", p.seed, a.class, a.steps, c.class, c.steps);
            bad += 1;
        }
    }
    clean(&dir);
    println!("{prop}: {n} seeds, {bad} not repeatable");
    (bad > 0) as i32
}
/// distribution of outcomes, without stopping
pub fn bench(prop: &str, n: u64) -> i32 {
    let dir = scratch();
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let t = Instant::now();
    let (mut steps, mut nt) = (0, 0);
    let mut slow = (0f64, 0u64);
    let mut cnt = [0u64; NCOUNT];
    for i in 0..n {
        let p = crate::props::plan(prop, Rng::new(i + 1_000_000).next());
        let t1 = Instant::now();
        let o = execute(&p, &dir, false);
        let d = t1.elapsed().as_secs_f64();
        if d > slow.0 {
            slow = (d, p.seed);
        }
        steps += o.steps;
        nt += crate::props::nontrivial(prop, &o) as u64;
        for k in 0..NCOUNT {
            cnt[k] += o.counters[k];
        }
        let e = classes.entry(format!("{} {}", o.status, o.class)).or_insert((0, p.seed, o.msg.clone()));
        e.0 += 1;
    }
    println!("{:.2} ms/run, {} steps/run, {} nontrivial, slowest {slow:?}", t.elapsed().as_secs_f64() * 1000.0 / n as f64, steps / n, nt);
    for (c, (k, s, m)) in classes {
        println!("{k:6} {c}  e.g. seed {s}: {}", m.chars().take(600).collect::<String>());
    }
    for (i, n) in COUNT_NAMES.iter().enumerate() {
        if cnt[i] > 0 {
            println!("  {n}: {}", cnt[i]);
        }
    }
    clean(&dir);
    0
}

// ------------------------------------------------------------------ doing something in a process of its own
/// What `f` gives in a copy of this process, which ends afterwards; Err if the copy did not survive it.
/// To be called while the simulation has a single task.
pub fn alone(f: impl FnOnce() -> String) -> Result<String, String> {
    let mut fd = [0i32; 2];
    let n = std::mem::size_of::<Shm>();
    let (pid, own) = sim::outside(|| unsafe {
        assert!(libc::pipe(fd.as_mut_ptr()) == 0);
        let p = libc::syscall(libc::SYS_mmap, 0usize, n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1i64, 0i64);
        assert!(p != -1);
        (libc::fork(), p as *mut Shm)
    });
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            (*own).counters = shm().counters;
            SHM = own;
        }
        let mut out = String::new();
        let _ = guard("alone", || out = f());
        sim::outside(|| unsafe {
            let b = out.as_bytes();
            let mut at = 0;
            while at < b.len() {
                let r = libc::syscall(libc::SYS_write, fd[1], b.as_ptr().add(at), b.len() - at);
                if r <= 0 {
                    libc::_exit(1);
                }
                at += r as usize;
            }
            (*own).status = 1;
            libc::_exit(0)
        })
    }
    sim::outside(|| unsafe {
        libc::close(fd[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let r = libc::syscall(libc::SYS_read, fd[0], buf.as_mut_ptr(), buf.len());
            if r <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..r as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let r = match (*own).status {
            1 => Ok(String::from_utf8_lossy(&out).into_owned()),
            2 | 3 => Err(format!("{}: {}", get_str(&(*own).class), get_str(&(*own).msg))),
            _ => Err(format!("the process died (status {st})")),
        };
        libc::syscall(libc::SYS_munmap, own, n);
        r
    })
}
