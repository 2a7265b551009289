//! The seams: simulated clock (basic-block ticks), allocator, interposed libc
//! calls (files, randomness, time, futex) and the baton scheduler for threads.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, Ordering::*};

// ---------------------------------------------------------------- raw syscalls
#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut c_int;
    pub fn fork() -> c_int;
    pub fn malloc_trim(pad: usize) -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn setrlimit(r: c_int, lim: *const [u64; 2]) -> c_int;
    pub fn poll(fds: *mut PollFd, n: u64, timeout: c_int) -> c_int;
    pub fn setpgid(pid: c_int, pg: c_int) -> c_int;
    pub fn prctl(op: c_int, ...) -> c_int;
}
#[repr(C)]
pub struct PollFd { pub fd: c_int, pub events: i16, pub revents: i16 }
pub fn set_errno(e: i32) { unsafe { *__errno_location() = e } }
unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { set_errno((-r) as i32); -1 } else { r } }
pub fn raw_write(fd: i32, b: &[u8]) -> bool {
    let mut o = 0;
    while o < b.len() {
        let r = unsafe { sys6(1, fd as i64, b[o..].as_ptr() as i64, (b.len() - o) as i64, 0, 0, 0) };
        if r == -4 { continue }
        if r <= 0 { return false }
        o += r as usize;
    }
    true
}
pub fn raw_read_all(fd: i32) -> Vec<u8> {
    let mut v = Vec::new();
    let mut buf = [0u8; 65536];
    loop {
        let r = unsafe { sys6(0, fd as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0) };
        if r == -4 { continue }
        if r <= 0 { return v }
        v.extend_from_slice(&buf[..r as usize]);
    }
}
pub fn raw_close(fd: i32) { unsafe { sys6(3, fd as i64, 0, 0, 0, 0, 0); } }
pub fn mono_us() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { sys6(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0); }
    ts[0] as u64 * 1_000_000 + ts[1] as u64 / 1000
}

// ---------------------------------------------------------------- state of the run
/// The simulator is in charge (the code under test is running).
pub static mut ACTIVE: bool = false;
/// Simulated clock: basic blocks executed by the code under test.
pub static mut TICK: u64 = 0;
pub static mut LIMIT: u64 = u64::MAX;
pub static mut NGUARD: u32 = 0;
pub const MAXG: usize = 1 << 17;
pub static mut COV: [u8; MAXG] = [0; MAXG];
pub static mut RAND: u64 = 0x1234_5678;
pub static mut RAND_CALLS: u64 = 0;
pub static mut CLOCK_NS: u64 = 1_700_000_000_000_000_000;
pub static mut CLOCK_CALLS: u64 = 0;
/// Next tick at which the fast path must leave for the slow path.
static mut NEXT: u64 = u64::MAX;
pub static mut HANG_FD: i32 = -1;
pub static mut COV_ON: bool = false;

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    let mut p = s;
    if s == e || *s != 0 { return }
    while p < e { NGUARD += 1; *p = NGUARD; p = p.add(1); }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE { return }
    TICK += 1;
    if COV_ON { let i = *g as usize; if i < MAXG { COV[i] = 1; } }
    if TICK >= NEXT { slow_tick(); }
}
pub unsafe fn arm() { NEXT = LIMIT.min(if SCHED_ON { SCHED.next_at } else { u64::MAX }); }
#[cold]
unsafe fn slow_tick() {
    if TICK >= LIMIT {
        // The run used up its step budget: report and end the child.
        if HANG_FD >= 0 { raw_write(HANG_FD, b"HANG"); }
        sys6(231, 77, 0, 0, 0, 0, 0);
    }
    if SCHED_ON && TICK >= SCHED.next_at { sched_point(); }
    arm();
}

// ---------------------------------------------------------------- allocator
pub struct Alloc;
pub static mut LIVE_BLOCKS: i64 = 0;
pub static mut LIVE_BYTES: i64 = 0;
pub static mut ALLOCS: u64 = 0;
pub static mut PEAK_BYTES: i64 = 0;
/// Number of frees of pointers which the allocator never handed out (or freed twice).
pub static mut FOREIGN_FREES: u64 = 0;
pub static mut WRONG_SIZE: u64 = 0;
pub static mut TABLE_ON: bool = false;
const TBITS: usize = 20;
static mut TABLE: *mut [(usize, usize); 1 << TBITS] = std::ptr::null_mut();
const TOMB: usize = 1;
/// With the table on, only blocks allocated from then on are known; frees are
/// judged only while the code under test runs.
pub unsafe fn table_enable() {
    let p = sys6(9, 0, ((1usize << TBITS) * 16) as i64, 3, 0x22, -1, 0);
    TABLE = p as *mut _;
    TABLE_ON = true;
}
fn h(p: usize) -> usize { (p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> (64 - TBITS) }
unsafe fn t_put(p: usize, n: usize) {
    let t = &mut *TABLE;
    let mut i = h(p);
    loop {
        if t[i].0 == 0 || t[i].0 == TOMB { t[i] = (p, n); return }
        i = (i + 1) & ((1 << TBITS) - 1);
    }
}
unsafe fn t_take(p: usize) -> Option<usize> {
    let t = &mut *TABLE;
    let mut i = h(p);
    loop {
        if t[i].0 == 0 { return None }
        if t[i].0 == p { t[i].0 = TOMB; return Some(t[i].1) }
        i = (i + 1) & ((1 << TBITS) - 1);
    }
}
/// Only the code under test is counted (the harness runs with ACTIVE off).
#[inline]
unsafe fn count(b: i64, n: i64) {
    LIVE_BLOCKS += b; LIVE_BYTES += n;
    if b >= 0 { ALLOCS += 1 }
    if LIVE_BYTES > PEAK_BYTES { PEAK_BYTES = LIVE_BYTES }
}
/// Harness code called back from the code under test holds one of these.
pub struct Quiet(bool);
pub fn quiet() -> Quiet { unsafe { let s = ACTIVE; ACTIVE = false; Quiet(s) } }
impl Drop for Quiet { fn drop(&mut self) { unsafe { ACTIVE = self.0 } } }
thread_local! { /// This thread is past (or outside) the simulated part of the run: nothing it does is counted.
pub static HARNESS: Cell<bool> = const { Cell::new(false) }; }
#[inline]
unsafe fn on() -> bool { ACTIVE && !HARNESS.with(|h| h.get()) }
/// The simulated process's heap: two areas at fixed addresses (the code under test's own
/// blocks, and the harness's, input buffers included), so that which address a block gets
/// depends on the run alone and not on what the simulator did before it. Freed blocks are
/// reused last-in first-out by size, and are overwritten; new blocks hold leftovers.
const HEAP: [usize; 2] = [0x5f00_0000_0000, 0x5e00_0000_0000];
const HEAP_SIZE: usize = 16 << 30;
const BINS: usize = 64 + 32 * 4;
pub static mut HEAP_ON: bool = false;
pub static mut LEFTOVER: u8 = 0;
static mut TOP: [usize; 2] = HEAP;
static mut FREE: [[usize; BINS]; 2] = [[0; BINS]; 2];
static HEAP_LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const USED: u64 = 0x75_5e_d0_75_5e_d0;
const GONE: u64 = 0xf4_ee_d0_f4_ee_d0;
pub unsafe fn heap_enable() {
    for a in HEAP {
        // PROT_READ | PROT_WRITE; MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
        if sys6(9, a as i64, HEAP_SIZE as i64, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0) != a as i64 { return }
    }
    HEAP_ON = true;
}
fn bin(n: usize) -> (usize, usize) {
    if n <= 1024 { let k = (n.max(1) + 15) / 16; return (k - 1, k * 16) }
    let p = usize::BITS as usize - 1 - (n - 1).leading_zeros() as usize; // 2^p <= n-1
    let q = (n - 1 - (1 << p)) >> (p - 2);
    (64 + (p - 10) * 4 + q, (1 << p) + ((q + 1) << (p - 2)))
}
fn heap_of(p: usize) -> Option<usize> { (0..2).find(|&k| p.wrapping_sub(HEAP[k]) < HEAP_SIZE) }
unsafe fn heap_lock() { while HEAP_LOCK.swap(true, std::sync::atomic::Ordering::Acquire) { std::hint::spin_loop() } }
unsafe fn heap_unlock() { HEAP_LOCK.store(false, std::sync::atomic::Ordering::Release) }
unsafe fn heap_get(k: usize, n: usize, zero: bool) -> *mut u8 {
    let (b, size) = bin(n);
    if b >= BINS { return std::ptr::null_mut() }
    heap_lock();
    let mut p = FREE[k][b];
    let fresh = p == 0;
    if fresh {
        p = TOP[k] + 16;
        if p + size > HEAP[k] + HEAP_SIZE { heap_unlock(); return std::ptr::null_mut() }
        TOP[k] = p + size;
        *((p - 8) as *mut u64) = b as u64;
    } else { FREE[k][b] = *(p as *const usize) }
    *((p - 16) as *mut u64) = USED;
    heap_unlock();
    let p = p as *mut u8;
    if zero { if !fresh { std::ptr::write_bytes(p, 0, n) } }
    else if LEFTOVER != 0 { std::ptr::write_bytes(p, LEFTOVER, n.min(256)) }
    p
}
/// Whether the block was live; one that was not is left alone.
unsafe fn heap_put(k: usize, p: usize) -> bool {
    heap_lock();
    let live = p % 16 == 0 && *((p - 16) as *const u64) == USED;
    if live {
        let b = *((p - 8) as *const u64) as usize;
        *((p - 16) as *mut u64) = GONE;
        std::ptr::write_bytes(p as *mut u8, 0xDB, if b < 64 { (b + 1) * 16 } else { 1024 });
        *(p as *mut usize) = FREE[k][b];
        FREE[k][b] = p;
    }
    heap_unlock();
    live
}
unsafe fn heap_room(p: usize) -> usize { let b = *((p - 8) as *const u64) as usize; if b < 64 { (b + 1) * 16 } else { let (p, q) = ((b - 64) / 4 + 10, (b - 64) % 4); (1 << p) + ((q + 1) << (p - 2)) } }
unsafe fn get(l: Layout, zero: bool) -> *mut u8 {
    if HEAP_ON && l.align() <= 16 { heap_get(!on() as usize, l.size(), zero) }
    else if zero { System.alloc_zeroed(l) } else { System.alloc(l) }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = get(l, false);
        if on() { count(1, l.size() as i64) }
        if TABLE_ON { t_put(p as usize, l.size()) }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = get(l, true);
        if on() { count(1, l.size() as i64) }
        if TABLE_ON { t_put(p as usize, l.size()) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TABLE_ON {
            match t_take(p as usize) {
                None if on() => { FOREIGN_FREES += 1; return } // contain it: do not hand it to libc
                Some(n) if n != l.size() && on() => WRONG_SIZE += 1,
                _ => {}
            }
        }
        match heap_of(p as usize) {
            Some(k) if HEAP_ON => if !heap_put(k, p as usize) { if on() { FOREIGN_FREES += 1 } return },
            _ => System.dealloc(p, l),
        }
        if on() { count(-1, -(l.size() as i64)) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if TABLE_ON { if t_take(p as usize).is_none() && on() { FOREIGN_FREES += 1 } }
        let q = match heap_of(p as usize) {
            Some(k) if HEAP_ON => {
                let room = heap_room(p as usize);
                if n <= room && n * 2 > room { p } else {
                    let q = heap_get(k, n, false);
                    if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); heap_put(k, p as usize); }
                    q
                }
            }
            _ => System.realloc(p, l, n),
        };
        if on() { count(0, n as i64 - l.size() as i64) }
        if TABLE_ON { t_put(q as usize, n) }
        q
    }
}

// ---------------------------------------------------------------- randomness, clock
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if !ACTIVE { return ret(sys6(318, buf as i64, n as i64, flags as i64, 0, 0, 0)) as isize }
    RAND_CALLS += 1;
    for i in 0..n { *buf.add(i) = splitmix(&mut RAND) as u8; }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if !ACTIVE { return ret(sys6(228, id as i64, ts as i64, 0, 0, 0, 0)) as c_int }
    CLOCK_CALLS += 1;
    let t = CLOCK_NS.wrapping_add(TICK * 10).wrapping_add(CLOCK_CALLS);
    (*ts)[0] = (t / 1_000_000_000) as i64;
    (*ts)[1] = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    if !ACTIVE { return ret(sys6(35, req as i64, rem as i64, 0, 0, 0, 0)) as c_int }
    CLOCK_NS = CLOCK_NS.wrapping_add(((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64);
    if SCHED_ON { sched_yield_now(); }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: c_int, _f: c_int, req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    nanosleep(req, rem)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ACTIVE && SCHED_ON { sched_yield_now(); return 0 }
    if ACTIVE { return 0 }
    sys6(24, 0, 0, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- simulated file system
#[derive(Clone, Debug, PartialEq)]
pub enum RFault { Short(usize), Eintr, Err(i32), Eof }
#[derive(Clone, Debug, Default)]
pub struct SimFile {
    pub path: String,
    pub content: Vec<u8>,
    pub open_err: Vec<i32>, // errno per open call (0 = fine); last value repeats only for non-EINTR
    pub reads: Vec<RFault>, // consumed one per read() call, then full reads
    pub size_lie: Option<u64>, // size reported by stat (stale metadata)
    pub stat_err: i32,
    pub dir: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum FsEv { Validate(String, bool), Open(String, i32), Read(String, i64), Stat(String), Close(String), WriteAttempt(String) }
pub struct FsState {
    pub files: Vec<SimFile>,
    pub fds: Vec<(i32, usize, usize)>, // fd, file idx, offset
    pub log: Vec<FsEv>,
    pub delivered: Vec<u8>, // bytes handed out by read() in this op
    pub fired: [u64; 4], // eintr, short, err, early eof
    next_fd: i32,
}
pub static mut FS: Option<FsState> = None;
pub const SIMFS: &str = "/simfs/";
pub fn fs_reset(files: Vec<SimFile>) {
    unsafe { FS = Some(FsState { files, fds: vec![], log: vec![], delivered: vec![], fired: [0; 4], next_fd: 100_000 }) }
}
fn canon(path: &str) -> Option<String> {
    // lexical normalisation, so that a changed spelling still hits the simulated disk
    // (a relative name is looked up in the simulated disk's root)
    let mut out: Vec<&str> = if path.starts_with('/') { vec![] } else { vec!["simfs"] };
    for c in path.split('/') { match c { "" | "." => {} ".." => { out.pop(); } x => out.push(x) } }
    Some(format!("/{}", out.join("/")))
}
unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if !ACTIVE { return None }
    let _q = quiet();
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    let c = canon(&s)?;
    if c.starts_with(SIMFS) || c == "/simfs" { Some(s) } else { None } // reported as spelled
}
/// Paths outside the simulated disk that the code under test tried to open.
pub static mut ESCAPES: Vec<String> = Vec::new();
unsafe fn sim_open(path: String, flags: c_int) -> c_int {
    let saved = ACTIVE; ACTIVE = false;
    let fs = FS.as_mut().unwrap();
    let r;
    if flags & 3 != 0 { fs.log.push(FsEv::WriteAttempt(path.clone())); set_errno(30); r = -1; }
    else {
        match fs.files.iter().position(|f| canon(&f.path) == canon(&path)) {
            None => { fs.log.push(FsEv::Open(path, 2)); set_errno(2); r = -1 }
            Some(i) => {
                let e = if fs.files[i].open_err.is_empty() { 0 } else { fs.files[i].open_err.remove(0) };
                fs.log.push(FsEv::Open(path, e));
                if e != 0 {
                    if e == 4 { fs.fired[0] += 1 } else { fs.fired[2] += 1 }
                    set_errno(e); r = -1
                } else { fs.next_fd += 1; fs.fds.push((fs.next_fd, i, 0)); r = fs.next_fd }
            }
        }
    }
    ACTIVE = saved;
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Some(path) = sim_path(p) { return sim_open(path, flags) }
    if ACTIVE {
        let _q = quiet();
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        if !s.starts_with("/proc/") && !s.starts_with("/sys/") { ESCAPES.push(s); if flags & 3 != 0 { set_errno(30); return -1 } }
    }
    ret(sys6(257, -100, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: u32) -> c_int { open64(p, flags, mode) }
unsafe fn simfd(fd: c_int) -> Option<usize> {
    if !ACTIVE || fd < 100_000 { return None }
    FS.as_ref()?.fds.iter().position(|f| f.0 == fd)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    let Some(k) = simfd(fd) else { return ret(sys6(0, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize };
    let saved = ACTIVE; ACTIVE = false;
    let fs = FS.as_mut().unwrap();
    let (_, fi, off) = fs.fds[k];
    let f = &mut fs.files[fi];
    let left = f.content.len().saturating_sub(off);
    let mut m = n.min(left);
    let mut err = 0;
    if f.dir { err = 21 }
    else if !f.reads.is_empty() && n > 0 {
        match f.reads.remove(0) {
            RFault::Eintr => { err = 4; fs.fired[0] += 1 }
            RFault::Err(e) => { err = e; fs.fired[2] += 1 }
            RFault::Short(s) => { if s.max(1) < m { m = s.max(1); fs.fired[1] += 1 } }
            RFault::Eof => { f.content.truncate(off); m = 0; if left > 0 { fs.fired[3] += 1 } }
        }
    }
    let path = f.path.clone();
    let r: isize;
    if err != 0 { r = -1; fs.log.push(FsEv::Read(path, -(err as i64))); }
    else {
        std::ptr::copy_nonoverlapping(f.content.as_ptr().add(off.min(f.content.len())), buf, m);
        fs.delivered.extend_from_slice(std::slice::from_raw_parts(buf, m));
        fs.fds[k].2 += m;
        fs.log.push(FsEv::Read(path, m as i64));
        r = m as isize;
    }
    ACTIVE = saved;
    if err != 0 { set_errno(err) }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut u8, n: usize, off: i64) -> isize {
    let Some(k) = simfd(fd) else { return ret(sys6(17, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize };
    let saved = FS.as_ref().unwrap().fds[k].2;
    FS.as_mut().unwrap().fds[k].2 = off as usize;
    let r = read(fd, buf, n);
    FS.as_mut().unwrap().fds[k].2 = saved;
    r
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const [usize; 2], cnt: c_int) -> isize {
    if simfd(fd).is_none() { return ret(sys6(19, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize }
    if cnt < 1 { return 0 }
    read(fd, (*iov)[0] as *mut u8, (*iov)[1])
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(k) = simfd(fd) {
        let saved = ACTIVE; ACTIVE = false;
        let fs = FS.as_mut().unwrap();
        let (_, fi, _) = fs.fds.remove(k);
        fs.log.push(FsEv::Close(fs.files[fi].path.clone()));
        ACTIVE = saved;
        return 0;
    }
    ret(sys6(3, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if let Some(k) = simfd(fd) {
        let fs = FS.as_mut().unwrap();
        let len = fs.files[fs.fds[k].1].content.len() as i64;
        let cur = fs.fds[k].2 as i64;
        let n = match wh { 0 => off, 1 => cur + off, _ => len + off };
        if n < 0 { set_errno(22); return -1 }
        fs.fds[k].2 = n as usize;
        return n;
    }
    ret(sys6(8, fd as i64, off, wh as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 { lseek64(fd, off, wh) }
fn file_size(f: &SimFile) -> u64 { f.size_lie.unwrap_or(f.content.len() as u64) }
unsafe fn fill_stat(st: *mut u8, f: &SimFile) {
    std::ptr::write_bytes(st, 0, 144);
    *(st.add(24) as *mut u32) = if f.dir { 0o040755 } else { 0o100644 };
    *(st.add(16) as *mut u64) = 1;
    *(st.add(48) as *mut u64) = file_size(f);
    *(st.add(56) as *mut u64) = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut u8) -> c_int {
    if let Some(k) = simfd(fd) {
        let fs = FS.as_mut().unwrap();
        let f = &fs.files[fs.fds[k].1];
        if f.stat_err != 0 { set_errno(f.stat_err); return -1 }
        fill_stat(st, f);
        return 0;
    }
    ret(sys6(5, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut u8) -> c_int { fstat64(fd, st) }
unsafe fn sim_stat(path: String, st: *mut u8) -> c_int {
    let saved = ACTIVE; ACTIVE = false;
    let fs = FS.as_mut().unwrap();
    fs.log.push(FsEv::Stat(path.clone()));
    let r = match fs.files.iter().find(|f| canon(&f.path) == canon(&path)) {
        None => { set_errno(2); -1 }
        Some(f) if f.stat_err != 0 => { set_errno(f.stat_err); -1 }
        Some(f) => { fill_stat(st, f); 0 }
    };
    ACTIVE = saved;
    r
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut u8) -> c_int {
    if let Some(path) = sim_path(p) { return sim_stat(path, st) }
    ret(sys6(4, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut u8) -> c_int {
    if let Some(path) = sim_path(p) { return sim_stat(path, st) }
    ret(sys6(6, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if let Some(path) = sim_path(p) { let mut b = [0u8; 144]; return sim_stat(path, b.as_mut_ptr()) }
    ret(sys6(21, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    let mut st = [0u8; 144];
    let mut got = None;
    if ACTIVE && !p.is_null() {
        let empty = *p == 0;
        if empty && simfd(dfd).is_some() { got = Some(fstat64(dfd, st.as_mut_ptr())) }
        else if let Some(path) = sim_path(p) { got = Some(sim_stat(path, st.as_mut_ptr())) }
    }
    match got {
        None => ret(sys6(332, dfd as i64, p as i64, flags as i64, mask as i64, buf as i64, 0)) as c_int,
        Some(0) => {
            std::ptr::write_bytes(buf, 0, 256);
            *(buf as *mut u32) = 0x7ff;
            *(buf.add(4) as *mut u32) = 4096;
            *(buf.add(16) as *mut u32) = 1;
            *(buf.add(28) as *mut u16) = *(st.as_ptr().add(24) as *const u32) as u16;
            *(buf.add(40) as *mut u64) = *(st.as_ptr().add(48) as *const u64);
            0
        }
        Some(_) => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    extern "C" { fn strdup(p: *const c_char) -> *mut c_char; fn __realpath_chk(p: *const c_char, out: *mut c_char, n: usize) -> *mut c_char; }
    let Some(path) = sim_path(p) else { return if out.is_null() { let mut b = vec![0 as c_char; 4096]; let r = __realpath_chk(p, b.as_mut_ptr(), 4096); if r.is_null() { r } else { strdup(r) } } else { __realpath_chk(p, out, 4096) } };
    let mut b = [0u8; 144];
    if sim_stat(path.clone(), b.as_mut_ptr()) != 0 { return std::ptr::null_mut() }
    let _q = quiet();
    let c = std::ffi::CString::new(canon(&path).unwrap()).unwrap();
    if out.is_null() { strdup(c.as_ptr()) } else { std::ptr::copy_nonoverlapping(c.as_ptr(), out, c.as_bytes_with_nul().len()); out }
}

// Other ways to look at or change files. Nothing the code under test does here reaches the real
// disk: the attempt is recorded and refused.
unsafe fn other_look(p: *const c_char, errno: c_int) -> c_int {
    if let Some(path) = sim_path(p) { let mut b = [0u8; 144]; if sim_stat(path, b.as_mut_ptr()) != 0 { return -1 } set_errno(errno); return -1 }
    let _q = quiet();
    ESCAPES.push(CStr::from_ptr(p).to_string_lossy().into_owned());
    set_errno(2);
    -1
}
unsafe fn other_change(p: *const c_char) -> c_int {
    if let Some(path) = sim_path(p) { let _q = quiet(); FS.as_mut().unwrap().log.push(FsEv::WriteAttempt(path)) } else { let _q = quiet(); ESCAPES.push(CStr::from_ptr(p).to_string_lossy().into_owned()) }
    set_errno(30);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut u8, n: usize) -> isize {
    if !ACTIVE { return ret(sys6(89, p as i64, buf as i64, n as i64, 0, 0, 0)) as isize }
    if CStr::from_ptr(p).to_bytes().starts_with(b"/proc/") { return ret(sys6(89, p as i64, buf as i64, n as i64, 0, 0, 0)) as isize }
    other_look(p, 22) as isize
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut u8 {
    extern "C" { fn fdopendir(fd: c_int) -> *mut u8; }
    if !ACTIVE { let fd = ret(sys6(257, -100, p as i64, 0o2200000, 0, 0, 0)) as c_int; return if fd < 0 { std::ptr::null_mut() } else { fdopendir(fd) } }
    other_look(p, 20);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int { if ACTIVE && sim_path(p).is_some() { access(p, m) } else { ret(sys6(269, d as i64, p as i64, m as i64, f as i64, 0, 0)) as c_int } }
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int { if ACTIVE { open64(p, flags, mode) } else { ret(sys6(257, d as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int } }
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int { openat64(d, p, flags, mode) }
macro_rules! changers { ($($f:ident $n:literal),*) => { $(#[no_mangle] pub unsafe extern "C" fn $f(p: *const c_char, a: i64, b: i64) -> c_int { if ACTIVE { other_change(p) } else { ret(sys6($n, p as i64, a, b, 0, 0, 0)) as c_int } })* } }
changers!(unlink 87, rename 82, mkdir 83, rmdir 84, symlink 88, link 86, chmod 90, truncate64 76);

// ---------------------------------------------------------------- the process's surroundings
/// Nonzero: every variable the code asks for and the scenario does not set may turn out to be set.
pub static mut ENV_SEED: u64 = 0;
/// Nonzero: inputs lie at odd places among other data.
pub static mut PLACE: u64 = 0;
pub static mut ENV_FAKED: u64 = 0;
extern "C" { static environ: *const *const c_char; }
unsafe fn real_getenv(n: &[u8]) -> *const c_char {
    if environ.is_null() { return std::ptr::null() }
    let mut e = environ;
    while !(*e).is_null() {
        let s = CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && s[n.len()] == b'=' && &s[..n.len()] == n { return (*e).add(n.len() + 1) }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const c_char) -> *const c_char {
    let name = CStr::from_ptr(n).to_bytes();
    let v = real_getenv(name);
    // (the settings that the code documents, or that belong to the language runtime, are left alone)
    if !v.is_null() || !ACTIVE || ENV_SEED == 0 || name == b"CODEPARSER_DEBUG" || name == b"CODEPARSER_MODE" || name.starts_with(b"RUST") { return v }
    let mut h = ENV_SEED;
    for b in name { h = (h ^ *b as u64).wrapping_mul(0x100000001b3) }
    let h = splitmix(&mut h);
    const VALS: [&[u8]; 8] = [b"1\0", b"\0", b"true\0", b"0\0", b"C\0", b"2\0", b"/nonexistent\0", b"debug\0"];
    if h % 4 == 0 { return v }
    ENV_FAKED += 1;
    VALS[(h >> 8) as usize % VALS.len()].as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(n: *const c_char) -> *const c_char { getenv(n) }
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int { if ACTIVE { 1000 + (ENV_SEED % 30_000) as c_int } else { sys6(39, 0, 0, 0, 0, 0, 0) as c_int } }

// ---------------------------------------------------------------- threads: baton scheduler
pub const MAXT: usize = 8;
pub struct Sched {
    pub n: usize,
    pub cur: usize,
    pub done: [bool; MAXT],
    pub wait: [usize; MAXT], // futex address a thread is parked on (0: runnable)
    pub switches: Vec<(u64, u8)>, // (ticks to run before this switch, target preference)
    pub pos: usize,
    pub next_at: u64,
    pub taken: Vec<u8>, // the interleaving: thread chosen at each point
    pub deadlock: bool,
    pub slice: u64,
    pub own: [u64; MAXT], // ticks per thread
    last_at: u64,
}
pub static mut SCHED_ON: bool = false;
pub static mut SCHED: Sched = Sched { n: 0, cur: 0, done: [true; MAXT], wait: [0; MAXT], switches: Vec::new(), pos: 0,
    next_at: u64::MAX, taken: Vec::new(), deadlock: false, slice: 2000, own: [0; MAXT], last_at: 0 };
static BATON: AtomicU32 = AtomicU32::new(u32::MAX);
thread_local! { pub static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

pub unsafe fn raw_futex_wait(a: &AtomicU32, v: u32) { sys6(202, a as *const _ as i64, 128, v as i64, 0, 0, 0); }
pub unsafe fn raw_futex_wake(a: &AtomicU32) { sys6(202, a as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0); }
fn wait_for_turn(me: usize) {
    loop {
        let b = BATON.load(Acquire);
        if b == me as u32 { return }
        unsafe { raw_futex_wait(&BATON, b) }
    }
}
unsafe fn hand(to: usize) { SCHED.cur = to; BATON.store(to as u32, Release); raw_futex_wake(&BATON); }
pub unsafe fn sched_init(n: usize, switches: Vec<(u64, u8)>, slice: u64) {
    SCHED = Sched { n, cur: 0, done: [true; MAXT], wait: [0; MAXT], switches, pos: 0, next_at: 0, taken: Vec::with_capacity(4096),
        deadlock: false, slice, own: [0; MAXT], last_at: 0 };
    for i in 0..n { SCHED.done[i] = false }
    BATON.store(u32::MAX, Release);
    SCHED_ON = true;
    plan_next();
}
unsafe fn plan_next() {
    let d = if SCHED.pos < SCHED.switches.len() { SCHED.switches[SCHED.pos].0.max(1) } else { SCHED.slice };
    SCHED.next_at = TICK + d;
    arm();
}
/// Called by a simulated thread before it does anything.
pub fn thread_enter(me: usize) { ME.with(|m| m.set(me)); wait_for_turn(me); }
pub unsafe fn sched_start(first: usize) { SCHED.taken.push(first as u8); SCHED.last_at = TICK; hand(first % SCHED.n); }
unsafe fn runnable(i: usize) -> bool { i < SCHED.n && !SCHED.done[i] && SCHED.wait[i] == 0 }
unsafe fn pick(pref: usize) -> Option<usize> { (0..SCHED.n).map(|k| (pref + k) % SCHED.n).find(|&i| runnable(i)) }
unsafe fn account() { let c = SCHED.cur; SCHED.own[c] += TICK - SCHED.last_at; SCHED.last_at = TICK; }
/// A preemption point was reached by the running thread.
unsafe fn sched_point() {
    let me = SCHED.cur;
    let pref = if SCHED.pos < SCHED.switches.len() { SCHED.switches[SCHED.pos].1 as usize % SCHED.n } else { (me + 1) % SCHED.n };
    SCHED.pos += 1;
    account();
    plan_next();
    if let Some(t) = pick(pref) {
        if SCHED.taken.len() < SCHED.taken.capacity() { SCHED.taken.push(t as u8) }
        if t != me { hand(t); wait_for_turn(me); }
    }
}
unsafe fn sched_yield_now() {
    let me = SCHED.cur;
    account();
    if let Some(t) = pick((me + 1) % SCHED.n) {
        if SCHED.taken.len() < SCHED.taken.capacity() { SCHED.taken.push(t as u8) }
        if t != me { hand(t); wait_for_turn(me); }
    }
}
pub unsafe fn thread_leave(me: usize) {
    SCHED.done[me] = true;
    account();
    ME.with(|m| m.set(usize::MAX));
    HARNESS.with(|h| h.set(true));
    match pick((me + 1) % SCHED.n) {
        Some(t) => { if SCHED.taken.len() < SCHED.taken.capacity() { SCHED.taken.push(t as u8) } hand(t) }
        None => {
            if (0..SCHED.n).any(|i| !SCHED.done[i]) { deadlocked() }
            BATON.store(u32::MAX - 1, Release);
            raw_futex_wake(&BATON);
        }
    }
}
pub fn wait_all_done() {
    loop {
        let b = BATON.load(Acquire);
        if b == u32::MAX - 1 { return }
        unsafe { raw_futex_wait(&BATON, b) }
    }
}
unsafe fn deadlocked() -> ! {
    SCHED.deadlock = true;
    if HANG_FD >= 0 { raw_write(HANG_FD, b"DEADLOCK"); }
    sys6(231, 78, 0, 0, 0, 0, 0);
    loop {}
}
static FUTEX_WAITS: AtomicI32 = AtomicI32::new(0);
pub fn futex_waits() -> i32 { FUTEX_WAITS.load(Relaxed) }
pub static HARNESS_LOCK_WAIT: AtomicBool = AtomicBool::new(false);

/// libc's syscall(): std uses it for futexes (and getrandom, statx fallbacks).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if ACTIVE {
        match n {
            202 if SCHED_ON && ME.with(|m| m.get()) != usize::MAX => {
                let op = b & 0x7f;
                let addr = a as usize;
                let me = SCHED.cur;
                match op {
                    0 | 9 => {
                        let v = (*(addr as *const AtomicU32)).load(SeqCst);
                        if v != c as u32 { set_errno(11); return -1 }
                        FUTEX_WAITS.fetch_add(1, Relaxed);
                        if d != 0 {
                            // timed wait: time passes, the waiter is runnable again
                            CLOCK_NS = CLOCK_NS.wrapping_add(1_000_000_000);
                            sched_yield_now();
                            set_errno(110);
                            return -1;
                        }
                        SCHED.wait[me] = addr;
                        account();
                        match pick((me + 1) % SCHED.n) {
                            Some(t) => { if SCHED.taken.len() < SCHED.taken.capacity() { SCHED.taken.push(t as u8) } hand(t); wait_for_turn(me); }
                            None => deadlocked(),
                        }
                        return 0;
                    }
                    1 | 10 => {
                        let mut k = 0;
                        for i in 0..SCHED.n {
                            if k < c && SCHED.wait[i] == addr { SCHED.wait[i] = 0; k += 1 }
                        }
                        return k as c_long;
                    }
                    _ => {}
                }
            }
            318 => return getrandom(a as *mut u8, b as usize, c as u32) as c_long,
            332 => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut u8) as c_long,
            _ => {}
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}
pub fn _unused(_: *mut c_void) {}
