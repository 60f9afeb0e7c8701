//! The disk seam: libc calls made by std and memmap2 land here. They go to a real scratch directory, but faults,
//! listing order and write lengths are decided by the plan, and open descriptors and mappings are accounted for.
use simstd::sim;
use std::collections::{HashMap, HashSet};
use std::ffi::CStr;
use std::sync::Mutex;

pub const OPEN: usize = 0;
pub const MMAP: usize = 1;
pub const OPENDIR: usize = 2;
pub const READDIR: usize = 3;
pub const STAT: usize = 4;
pub const WRITE: usize = 5;
/// (the library maps its files and does not read them; a change could)
pub const READ: usize = 6;
/// mapping of memory without a file, and making it read-only
pub const MEM: usize = 7;
pub const PROT: usize = 8;
pub const KINDS: usize = 9;
pub const NAMES: [&str; KINDS] = ["open", "mmap", "opendir", "readdir", "stat", "write", "read", "memory mmap", "mprotect"];

#[derive(Clone, Debug, Default)]
pub struct Hit {
    pub call: usize,
    /// which call of this kind, counted from 0 since `arm`
    pub nth: u64,
    pub errno: i32,
    /// for writes and reads: short length instead of an error (errno 0)
    pub short: u64,
    /// strikes from the `nth` call on
    pub on: bool,
}
impl Hit {
    fn is(&self, call: usize, n: u64) -> bool {
        self.call == call && (self.nth == n || self.on && self.nth < n)
    }
}
#[derive(Default)]
pub struct Disk {
    pub on: bool,
    pub hits: Vec<Hit>,
    pub counts: [u64; KINDS],
    pub fired: [u64; KINDS],
    pub fired_list: Vec<Hit>,
    /// seed of the listing order
    pub order: Option<u64>,
    pub unknown_type: bool,
    pub fds: HashSet<i32>,
    pub maps: HashMap<usize, usize>,
    pub write_fds: HashSet<i32>,
    dirs: HashMap<usize, (Vec<Box<libc::dirent64>>, usize)>,
    pub listings: u64,
}
static DISK: Mutex<Option<Disk>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    let mut g = DISK.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Disk::default))
}
/// start injecting the given faults, counting calls from zero
pub fn arm(hits: Vec<Hit>) {
    with(|d| {
        d.on = true;
        d.hits = hits;
        d.counts = [0; KINDS];
        d.fired = [0; KINDS];
        d.fired_list.clear();
    })
}
pub fn disarm() -> ([u64; KINDS], Vec<Hit>) {
    with(|d| {
        d.hits.clear();
        d.on = false;
        (d.counts, std::mem::take(&mut d.fired_list))
    })
}
thread_local! { static MINE: std::cell::RefCell<Option<(Vec<Hit>, [u64; KINDS], Vec<Hit>)>> = const { std::cell::RefCell::new(None) }; }
/// faults for the calls of the calling thread only, counted from now
pub fn mine(hits: Vec<Hit>) {
    MINE.with(|m| *m.borrow_mut() = Some((hits, [0; KINDS], vec![])))
}
/// (calls made, faults that struck)
pub fn mine_done() -> ([u64; KINDS], Vec<Hit>) {
    let x = MINE.with(|m| m.borrow_mut().take()).unwrap_or_default();
    (x.1, x.2)
}
fn my_hit(call: usize) -> Option<Hit> {
    MINE.try_with(|m| {
        let mut m = m.try_borrow_mut().ok()?;
        let (hits, counts, fired) = m.as_mut()?;
        let n = counts[call];
        counts[call] += 1;
        let h = hits.iter().find(|h| h.is(call, n)).cloned()?;
        fired.push(h.clone());
        sim::note(0xD15D_0000 + h.errno as u64);
        struck(call);
        Some(h)
    })
    .ok()
    .flatten()
}
/// (descriptors, mappings) the code under test holds
pub fn held() -> (usize, usize) {
    with(|d| (d.fds.len(), d.maps.len()))
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn active() -> bool {
    sim::simulated()
}
fn struck(call: usize) {
    crate::run::count(match call {
        READ => crate::run::C_READ,
        MEM | PROT => crate::run::C_ALLOCF,
        _ => crate::run::C_FAULT0 + call,
    })
}
/// count the call; is there a fault for it?
fn hit(call: usize) -> Option<Hit> {
    if !active() {
        return None;
    }
    // waiting for one's turn must not be seen in errno
    let errno = unsafe { *libc::__errno_location() };
    sim::point(13, call as u32);
    let h = with(|d| {
        if !d.on {
            return None;
        }
        let n = d.counts[call];
        d.counts[call] += 1;
        let h = d.hits.iter().find(|h| h.is(call, n)).cloned();
        if let Some(h) = &h {
            d.fired[call] += 1;
            d.fired_list.push(h.clone());
            sim::note(0xD15C_0000 + h.errno as u64);
            struck(call);
        }
        h
    });
    let h = my_hit(call).or(h);
    set_errno(errno);
    h
}
unsafe fn next(name: &CStr) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: libc::c_int) -> i32 {
    if let Some(h) = hit(OPEN) {
        set_errno(h.errno);
        return -1;
    }
    let r = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as i32;
    if r >= 0 && active() {
        with(|d| {
            d.fds.insert(r);
            if flags & libc::O_ACCMODE != libc::O_RDONLY {
                d.write_fds.insert(r);
            }
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if active() {
        with(|d| {
            d.fds.remove(&fd);
            d.write_fds.remove(&fd);
        });
    }
    libc::syscall(libc::SYS_close, fd) as i32
}
unsafe fn mm(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    // (threads that start map their signal stacks before they are simulated)
    let mine = active();
    if mine {
        if let Some(h) = hit(if fd >= 0 { MMAP } else { MEM }) {
            set_errno(h.errno);
            return libc::MAP_FAILED;
        }
    }
    let r = libc::syscall(libc::SYS_mmap, a, len, prot, flags, fd, off) as *mut libc::c_void;
    if mine && r != libc::MAP_FAILED {
        with(|d| d.maps.insert(r as usize, len));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    mm(a, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    mm(a, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut libc::c_void, len: usize) -> i32 {
    if active() {
        with(|d| d.maps.remove(&(a as usize)));
    }
    libc::syscall(libc::SYS_munmap, a, len) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut libc::c_void, len: usize, prot: i32) -> i32 {
    if active() && with(|d| d.maps.contains_key(&(a as usize))) {
        if let Some(h) = hit(PROT) {
            set_errno(h.errno);
            return -1;
        }
    }
    libc::syscall(libc::SYS_mprotect, a, len, prot) as i32
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const libc::c_char) -> *mut libc::DIR {
    if let Some(h) = hit(OPENDIR) {
        set_errno(h.errno);
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const libc::c_char) -> *mut libc::DIR = std::mem::transmute(next(c"opendir"));
    let dir = f(p);
    if dir.is_null() || !active() {
        return dir;
    }
    let rd: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64"));
    let mut v: Vec<Box<libc::dirent64>> = vec![];
    loop {
        let e = rd(dir);
        if e.is_null() {
            break;
        }
        // an entry is as long as its record says
        let mut b: Box<libc::dirent64> = Box::new(std::mem::zeroed());
        let n = (*e).d_reclen as usize;
        std::ptr::copy_nonoverlapping(e as *const u8, &mut *b as *mut _ as *mut u8, n.min(std::mem::size_of::<libc::dirent64>()));
        v.push(b);
    }
    v.sort_by_key(|b| CStr::from_ptr(b.d_name.as_ptr()).to_bytes().to_vec());
    with(|d| {
        d.listings += 1;
        if let Some(s) = d.order {
            let mut r = sim::Rng::new(s ^ d.listings.wrapping_mul(77));
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        if d.unknown_type {
            for b in v.iter_mut() {
                b.d_type = libc::DT_UNKNOWN;
            }
        }
        d.dirs.insert(dir as usize, (v, 0));
    });
    dir
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    if active() && with(|d| d.dirs.contains_key(&(dir as usize))) {
        if let Some(h) = hit(READDIR) {
            set_errno(h.errno);
            return std::ptr::null_mut();
        }
        return with(|d| {
            let (v, i) = d.dirs.get_mut(&(dir as usize)).unwrap();
            *i += 1;
            match v.get_mut(*i - 1) {
                Some(b) => &mut **b as *mut _,
                None => std::ptr::null_mut(),
            }
        });
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64"));
    f(dir)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut libc::DIR) -> i32 {
    if active() {
        with(|d| d.dirs.remove(&(dir as usize)));
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> i32 = std::mem::transmute(next(c"closedir"));
    f(dir)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: i32, p: *const libc::c_char, flags: i32, mask: u32, buf: *mut libc::c_void) -> i32 {
    if active() {
        if let Some(h) = hit(STAT) {
            set_errno(h.errno);
            return -1;
        }
    }
    libc::syscall(libc::SYS_statx, dfd, p, flags, mask, buf) as i32
}
unsafe fn wr(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    let mut n = n;
    if active() && with(|d| d.write_fds.contains(&fd)) {
        if let Some(h) = hit(WRITE) {
            if h.errno != 0 {
                set_errno(h.errno);
                return -1;
            }
            n = n.min(h.short as usize);
            if n == 0 {
                return 0;
            }
        }
    }
    libc::syscall(libc::SYS_write, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    wr(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, c: i32) -> isize {
    if active() && with(|d| d.write_fds.contains(&fd)) && c > 0 {
        let i = (0..c as usize).find(|i| (*v.add(*i)).iov_len > 0).unwrap_or(0);
        let x = &*v.add(i);
        return wr(fd, x.iov_base, x.iov_len);
    }
    libc::syscall(libc::SYS_writev, fd, v, c) as isize
}
unsafe fn rdf(fd: i32, n: usize) -> Result<usize, isize> {
    if active() && with(|d| d.fds.contains(&fd)) {
        if let Some(h) = hit(READ) {
            if h.errno != 0 {
                set_errno(h.errno);
                return Err(-1);
            }
            return Ok(n.min(h.short.max(1) as usize));
        }
    }
    Ok(n)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut libc::c_void, n: usize) -> isize {
    match rdf(fd, n) {
        Ok(n) => libc::syscall(libc::SYS_read, fd, b, n) as isize,
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut libc::c_void, n: usize, off: i64) -> isize {
    match rdf(fd, n) {
        Ok(n) => libc::syscall(libc::SYS_pread64, fd, b, n, off) as isize,
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, c: i32) -> isize {
    if active() && with(|d| d.fds.contains(&fd)) && c > 0 {
        let i = (0..c as usize).find(|i| (*v.add(*i)).iov_len > 0).unwrap_or(0);
        let x = &*v.add(i);
        return read(fd, x.iov_base, x.iov_len);
    }
    libc::syscall(libc::SYS_readv, fd, v, c) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut libc::c_void, n: usize, _f: u32) -> isize {
    // hash seeds must not differ between executions of one seed
    for i in 0..n {
        *(b as *mut u8).add(i) = (i as u8).wrapping_mul(29) ^ 0x5A;
    }
    n as isize
}

// ---- scratch files, written around the seam
pub fn put(path: &str, data: &[u8]) {
    sim_free(|| std::fs::write(path, data).unwrap_or_else(|e| panic!("scratch {path}: {e}")))
}
/// overwrite bytes of an existing file in place (visible through existing mappings)
pub fn poke(path: &str, at: usize, data: &[u8]) {
    sim_free(|| {
        use std::os::unix::fs::FileExt;
        let f = std::fs::OpenOptions::new().write(true).open(path).unwrap();
        f.write_all_at(data, at as u64).unwrap();
    })
}
/// run with the seam out of the way
pub fn sim_free<R>(f: impl FnOnce() -> R) -> R {
    sim::outside(f)
}
