//! Runs one scenario in a forked child of a pristine process and collects what happened.
use crate::native;
use crate::scn::*;
use crate::seam::{self, quiet, FsEv};
use crate::value::*;
use crate::wstp::{self, Abort, Link};
use std::ffi::c_int;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::mpsc;

use wolfram_library_link::sys::{WSLINK, WolframLibraryData};
macro_rules! exports { ($($n:ident)*) => {
    extern "C" { $( fn $n(l: WolframLibraryData, link: WSLINK) -> c_int; )* }
    fn lookup(name: &str) -> Option<unsafe extern "C" fn(WolframLibraryData, WSLINK) -> c_int> {
        let full = format!("{name}_LibraryLink");
        $( if full == stringify!($n) { return Some($n) } )*
        None
    }
} }
exports!(CreateParserSession_LibraryLink DestroyParserSession_LibraryLink ConcreteParseBytes_LibraryLink ConcreteParseFile_LibraryLink
 TokenizeBytes_LibraryLink TokenizeFile_LibraryLink ConcreteParseLeaf_LibraryLink SafeString_LibraryLink TokenIsEmpty_LibraryLink
 RoundTripTest_LibraryLink Abstract_LibraryLink);
pub const FUNCS: [&str; 11] = ["CreateParserSession", "DestroyParserSession", "ConcreteParseBytes", "ConcreteParseFile", "TokenizeBytes", "TokenizeFile", "ConcreteParseLeaf", "SafeString", "TokenIsEmpty", "RoundTripTest", "Abstract"];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct StepRes {
    pub ret: i64,
    pub exprs: Vec<V>,
    pub leftover: u64, pub unread: bool, pub open: bool, pub err: i64, pub dead: bool,
    pub ops: u64, pub puts: u64, pub gets: u64, pub polls: u64,
    pub aborted_at: u64, pub seen_at: u64, pub t0: u64, pub t1: u64,
    pub fslog: Vec<FsEv>, pub delivered: Vec<u8>, pub fds_open: u64, pub fsfired: [u64; 4], pub escapes: Vec<String>,
    pub bufs: u64, pub bad_release: u64, pub fired: [u64; 2], pub fired_at_put: bool,
    pub live_blocks: i64, pub live_bytes: i64, pub allocs: u64, pub foreign: u64, pub wrong_size: u64, pub validations: u64,
    pub native: String, pub own_ticks: u64, pub peak: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End { Ok, Hang, Deadlock, Stuck, Signal(i32), Exit(i32) }
#[derive(Clone, Debug)]
pub struct Run { pub steps: Vec<StepRes>, pub end: End, pub taken: Vec<u8>, pub ticks: u64, pub rand_calls: u64, pub cov: Vec<u32>, pub futex_waits: u64, pub stderr: String }
impl Run {
    /// Everything observable, as one number (determinism self-test).
    pub fn digest(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for b in format!("{:?}{:?}{:?}{}{}", self.steps, self.end, self.taken, self.ticks, self.rand_calls).bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
        h
    }
}
// ---- wire format child -> parent
struct W(Vec<u8>);
impl W {
    fn u(&mut self, x: u64) { self.0.extend_from_slice(&x.to_le_bytes()) }
    fn b(&mut self, x: &[u8]) { self.u(x.len() as u64); self.0.extend_from_slice(x) }
    fn s(&mut self, x: &str) { self.b(x.as_bytes()) }
    fn v(&mut self, x: &V) {
        match x {
            V::Int(i) => { self.0.push(0); self.u(*i as u64) }
            V::Big(s) => { self.0.push(1); self.s(s) }
            V::Real(r) => { self.0.push(2); self.u(*r) }
            V::Str(s) => { self.0.push(3); self.s(s) }
            V::Sym(s) => { self.0.push(4); self.s(s) }
            V::Bytes(b) => { self.0.push(5); self.b(b) }
            V::Fun(h, a) => { self.0.push(6); self.u(a.len() as u64); self.v(h); for y in a { self.v(y) } }
        }
    }
}
struct R<'a>(&'a [u8], usize);
impl<'a> R<'a> {
    fn u(&mut self) -> Option<u64> { let x = self.0.get(self.1..self.1 + 8)?; self.1 += 8; Some(u64::from_le_bytes(x.try_into().ok()?)) }
    fn b(&mut self) -> Option<&'a [u8]> { let n = self.u()? as usize; let x = self.0.get(self.1..self.1.checked_add(n)?)?; self.1 += n; Some(x) }
    fn s(&mut self) -> Option<String> { Some(String::from_utf8_lossy(self.b()?).into_owned()) }
    fn v(&mut self) -> Option<V> {
        let t = *self.0.get(self.1)?; self.1 += 1;
        Some(match t {
            0 => V::Int(self.u()? as i64), 1 => V::Big(self.s()?), 2 => V::Real(self.u()?), 3 => V::Str(self.s()?), 4 => V::Sym(self.s()?), 5 => V::Bytes(self.b()?.to_vec()),
            6 => { let n = self.u()?; let h = self.v()?; let mut a = Vec::with_capacity(n.min(1 << 16) as usize); for _ in 0..n { a.push(self.v()?) } V::Fun(Box::new(h), a) }
            _ => return None,
        })
    }
}
fn enc(r: &StepRes) -> Vec<u8> {
    let mut w = W(vec![]);
    w.u(r.ret as u64);
    w.u(r.exprs.len() as u64); for e in &r.exprs { w.v(e) }
    for x in [r.leftover, r.unread as u64, r.open as u64, r.err as u64, r.dead as u64, r.ops, r.puts, r.gets, r.polls, r.aborted_at, r.seen_at, r.t0, r.t1, r.fds_open, r.fsfired[0], r.fsfired[1], r.fsfired[2], r.fsfired[3],
        r.bufs, r.bad_release, r.fired[0], r.fired[1], r.fired_at_put as u64, r.live_blocks as u64, r.live_bytes as u64, r.allocs, r.foreign, r.wrong_size, r.validations, r.own_ticks, r.peak] { w.u(x) }
    w.u(r.fslog.len() as u64);
    for e in &r.fslog {
        let (k, p, n) = match e { FsEv::Validate(p, ok) => (0, p, *ok as i64), FsEv::Open(p, e) => (1, p, *e as i64), FsEv::Read(p, n) => (2, p, *n), FsEv::Stat(p) => (3, p, 0), FsEv::Close(p) => (4, p, 0), FsEv::WriteAttempt(p) => (5, p, 0) };
        w.u(k); w.s(p); w.u(n as u64);
    }
    w.b(&r.delivered);
    w.u(r.escapes.len() as u64); for e in &r.escapes { w.s(e) }
    w.s(&r.native);
    w.0
}
fn dec(b: &[u8]) -> Option<StepRes> {
    let mut r = R(b, 0);
    let mut s = StepRes { ret: r.u()? as i64, ..Default::default() };
    for _ in 0..r.u()? { s.exprs.push(r.v()?) }
    s.leftover = r.u()?; s.unread = r.u()? != 0; s.open = r.u()? != 0; s.err = r.u()? as i64; s.dead = r.u()? != 0;
    s.ops = r.u()?; s.puts = r.u()?; s.gets = r.u()?; s.polls = r.u()?; s.aborted_at = r.u()?; s.seen_at = r.u()?; s.t0 = r.u()?; s.t1 = r.u()?; s.fds_open = r.u()?;
    for i in 0..4 { s.fsfired[i] = r.u()? }
    s.bufs = r.u()?; s.bad_release = r.u()?; s.fired = [r.u()?, r.u()?]; s.fired_at_put = r.u()? != 0; s.live_blocks = r.u()? as i64; s.live_bytes = r.u()? as i64; s.allocs = r.u()?;
    s.foreign = r.u()?; s.wrong_size = r.u()?; s.validations = r.u()?; s.own_ticks = r.u()?; s.peak = r.u()?;
    for _ in 0..r.u()? {
        let k = r.u()?; let p = r.s()?; let n = r.u()? as i64;
        s.fslog.push(match k { 0 => FsEv::Validate(p, n != 0), 1 => FsEv::Open(p, n as i32), 2 => FsEv::Read(p, n), 3 => FsEv::Stat(p), 4 => FsEv::Close(p), _ => FsEv::WriteAttempt(p) });
    }
    s.delivered = r.b()?.to_vec();
    for _ in 0..r.u()? { s.escapes.push(r.s()?) }
    s.native = r.s()?;
    Some(s)
}
// ---- child side
thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
fn hook(info: &panic::PanicInfo) {
    let _q = quiet();
    let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
    let l = info.location().map(|l| format!("{}", l.file())).unwrap_or_default();
    let t = format!("PANIC: {m} @ {l}"); PANIC_MSG.with(|p| *p.borrow_mut() = t);
}
fn run_native(api: &str, bytes: &[u8], o: &Opts, m: i64, r: &mut StepRes, conc: bool) {
    unsafe {
        // the input lies on the simulated heap, its alignment and surroundings being inputs too
        let held: Vec<u8>;
        let bytes = {
            let _q = quiet();
            let mut z = seam::PLACE;
            let k = z as usize % 16;
            let mut v = vec![0u8; k + bytes.len() + 24];
            if z != 0 { for x in v.iter_mut() { *x = seam::splitmix(&mut z) as u8 } }
            v[k..k + bytes.len()].copy_from_slice(bytes);
            held = v;
            std::slice::from_raw_parts(held.as_ptr().add(k), bytes.len())
        };
        if !conc { panic::set_hook(Box::new(hook)); }
        let res = panic::catch_unwind(AssertUnwindSafe(|| {
            if !conc { seam::ACTIVE = true }
            native::call(api, bytes, o, m)
        }));
        match res {
            Ok(f) => {
                seam::ACTIVE = false;
                let (t, v) = f();
                seam::ACTIVE = true;
                drop(f);
                if !conc { seam::ACTIVE = false }
                r.native = t;
                if let Some(v) = v { r.exprs.push(v) }
            }
            Err(e) => {
                drop(e);
                let _q = quiet();
                r.native = PANIC_MSG.with(|p| p.borrow().clone());
            }
        }
        { let _q = quiet(); drop(held) }
        if !conc { seam::ACTIVE = false; let _ = panic::take_hook(); }
    }
}
/// Handles the library has given out in this run, for requests that use "the handle of the k-th create".
static mut CREATED: Vec<i64> = Vec::new();
fn with_handles(args: &V) -> Option<V> {
    let V::Fun(h, a) = args else { return None };
    let k: usize = match a.first() { Some(V::Sym(s)) => s.strip_prefix("cpsim`handle`")?.parse().ok()?, _ => return None };
    let mut a = a.clone();
    a[0] = V::Int(unsafe { if CREATED.is_empty() { 0 } else { CREATED[k % CREATED.len()] } });
    Some(V::Fun(h.clone(), a))
}
fn run_step(s: &Step) -> StepRes {
    let mut r = StepRes::default();
    unsafe {
        seam::fs_reset(s.files.clone());
        seam::ESCAPES = vec![];
        wstp::RTL.abort = s.abort.clone();
        wstp::RTL.base_tick = seam::TICK;
        wstp::RTL.polls = 0; wstp::RTL.aborted_at = 0; wstp::RTL.seen_at = 0; wstp::RTL.deny = s.deny; wstp::RTL.validations = 0;
        let (f0, w0) = (seam::FOREIGN_FREES, seam::WRONG_SIZE);
        let a0 = seam::ALLOCS;
        r.t0 = seam::TICK;
        let l0 = seam::LIVE_BYTES; seam::PEAK_BYTES = l0;
        match &s.kind {
            Kind::Lib { func, args } => {
                let mut l = Link::default();
                let h = with_handles(args);
                l.load(h.as_ref().unwrap_or(args));
                drop(h);
                l.plan = s.lf.clone();
                wstp::LINK = Some(l);
                let f = match lookup(func) { Some(f) => f, None => { seam::raw_write(2, b"cpsim: no such export\n"); seam::_exit(97) } };
                let data = wstp::libdata();
                seam::ACTIVE = true;
                let rc = f(data, 16 as _);
                seam::ACTIVE = false;
                r.ret = rc as i64;
                let l = wstp::link();
                r.unread = l.request_unread();
                r.open = l.reply_open();
                r.err = l.err as i64; r.dead = l.dead;
                r.ops = l.ops; r.puts = l.puts; r.gets = l.gets; r.bufs = l.bufs.len() as u64; r.bad_release = l.bad_release; r.fired = l.fired; r.fired_at_put = l.fired_at_put;
                let toks = l.drain();
                let (e, left) = parse_tokens(&toks);
                r.exprs = e; r.leftover = left as u64;
                if func == "CreateParserSession" { if let Some(V::Int(h)) = r.exprs.first() { CREATED.push(*h) } }
            }
            Kind::Nat { api, bytes, opts, mode } => run_native(api, bytes, opts, *mode, &mut r, false),
        }
        r.t1 = seam::TICK;
        r.own_ticks = r.t1 - r.t0;
        r.peak = (seam::PEAK_BYTES - l0).max(0) as u64;
        let rt = &wstp::RTL;
        r.polls = rt.polls; r.validations = rt.validations; r.seen_at = rt.seen_at;
        r.aborted_at = match s.abort { Abort::Tick(k) => { let t = rt.base_tick + k; if t <= r.t1 { t.max(1) } else { 0 } } _ => rt.aborted_at };
        let fs = seam::FS.as_mut().unwrap();
        r.fslog = std::mem::take(&mut fs.log); r.delivered = std::mem::take(&mut fs.delivered); r.fds_open = fs.fds.len() as u64; r.fsfired = fs.fired;
        r.escapes = std::mem::take(&mut seam::ESCAPES);
        r.live_blocks = seam::LIVE_BLOCKS; r.live_bytes = seam::LIVE_BYTES; r.allocs = seam::ALLOCS - a0;
        r.foreign = seam::FOREIGN_FREES - f0; r.wrong_size = seam::WRONG_SIZE - w0;
    }
    r
}
const STACK: usize = 512 << 20;
fn emit(fd: i32, tag: u8, b: &[u8]) {
    let mut w = vec![tag];
    w.extend_from_slice(&(b.len() as u64).to_le_bytes());
    w.extend_from_slice(b);
    seam::raw_write(fd, &w);
}
fn child(s: &Scn, fd: i32, cov: bool) -> ! {
    unsafe {
        seam::LEFTOVER = (s.shift as u8).wrapping_mul(29);
        seam::heap_enable();
        for (k, v) in &s.env { if k == "cpsim:any" { seam::ENV_SEED = v.parse().unwrap_or(0) } else { std::env::set_var(k, v) } }
        seam::PLACE = s.shift as u64;
        seam::RAND = s.rand; seam::CLOCK_NS = s.clock; seam::TICK = 0; seam::HANG_FD = fd; seam::COV_ON = cov;
        seam::LIMIT = limit(s);
        seam::arm();
        // the kernel initialises the library on load; the native API polls AbortQ through it too
        if wolfram_library_link::initialize(wstp::libdata()).is_err() { seam::raw_write(2, b"cpsim: initialize\n"); seam::_exit(96) }
        let _ = wolfram_library_link::rtl::AbortQ();
        wstp::RTL.polls = 0;
        // address-space layout as an input: shift the heap before anything is allocated
        if s.shift > 0 { let mut v: Vec<Vec<u8>> = vec![]; for i in 0..(s.shift % 97) { v.push(vec![0; 16 + (s.shift * (i + 1)) % 4096]) } if s.shift % 2 == 0 { for x in v.iter_mut().step_by(2) { *x = vec![] } } std::mem::forget(v) }
        if s.mem { seam::table_enable() }
        if let Some(c) = &s.conc { conc_run(s, c, fd) } else { seq_run(s, fd) }
        let mut w = W(vec![]);
        w.b(&seam::SCHED.taken); w.u(seam::TICK); w.u(seam::RAND_CALLS); w.u(seam::futex_waits() as u64);
        if cov { let v: Vec<u32> = (0..=seam::NGUARD as usize).filter(|&i| i < seam::MAXG && seam::COV[i] != 0).map(|x| x as u32).collect(); w.u(v.len() as u64); for x in v { w.0.extend_from_slice(&x.to_le_bytes()) } } else { w.u(0) }
        emit(fd, b'E', &w.0);
        seam::_exit(0)
    }
}
/// Step budget: far above what any generated request needs. Some of the parser's work is
/// quadratic in the size of the input, which is not a hang.
fn limit(s: &Scn) -> u64 {
    if s.knob.first() == Some(&7777) { return s.knob[1] }
    let n: u64 = s.steps.iter().map(|t| match &t.kind { Kind::Nat { bytes, .. } => bytes.len(), Kind::Lib { args, .. } => crate::value::weight(args) }.max(t.files.iter().map(|f| f.content.len()).max().unwrap_or(0)) as u64).map(|n| n * n).sum();
    400_000_000 + 120 * n
}
struct Slot { go: AtomicU32, done: AtomicU32, res: std::sync::Mutex<Option<StepRes>> }
fn wait_change(a: &AtomicU32, old: u32) -> u32 {
    loop {
        let v = a.load(Ordering::Acquire);
        if v != old { return v }
        unsafe { seam::raw_futex_wait(a, v) }
    }
}
fn seq_run(s: &Scn, fd: i32) {
    // One OS thread per simulated caller thread, each idle until handed a request. The
    // hand-over allocates nothing, so that the accounting of the run is the callee's only.
    seam::HARNESS.with(|h| h.set(true));
    let slots: Vec<Slot> = (0..256).map(|_| Slot { go: AtomicU32::new(0), done: AtomicU32::new(0), res: Default::default() }).collect();
    let mut started = [false; 256];
    std::thread::scope(|sc| {
        for (i, st) in s.steps.iter().enumerate() {
            let t = st.thread as usize;
            let slot = &slots[t];
            if !started[t] {
                started[t] = true;
                let steps = &s.steps;
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                    let mut last = 0;
                    loop {
                        last = wait_change(&slot.go, last);
                        if last == u32::MAX { break }
                        let r = run_step(&steps[last as usize - 1]);
                        *slot.res.lock().unwrap() = Some(r);
                        slot.done.store(last, Ordering::Release);
                        unsafe { seam::raw_futex_wake(&slot.done) }
                    }
                }).unwrap();
            }
            let before = slot.done.load(Ordering::Acquire);
            slot.go.store(i as u32 + 1, Ordering::Release);
            unsafe { seam::raw_futex_wake(&slot.go) }
            wait_change(&slot.done, before);
            let r = slot.res.lock().unwrap().take().unwrap();
            emit(fd, b'S', &enc(&r));
        }
        for slot in &slots { slot.go.store(u32::MAX, Ordering::Release); unsafe { seam::raw_futex_wake(&slot.go) } }
    });
}
fn conc_run(s: &Scn, c: &Conc, fd: i32) {
    // Native calls only, on n simulated threads under the baton scheduler.
    let n = c.n;
    seam::HARNESS.with(|h| h.set(true));
    let res: Vec<std::sync::Mutex<Vec<(usize, StepRes)>>> = (0..n).map(|_| Default::default()).collect();
    unsafe { panic::set_hook(Box::new(hook)); seam::fs_reset(vec![]); }
    std::thread::scope(|sc| {
        let (rtx, rrx) = mpsc::channel::<()>();
        let mut hs = vec![];
        for t in 0..n {
            let (res, steps, rtx) = (&res[t], &s.steps, rtx.clone());
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                rtx.send(()).unwrap();
                seam::thread_enter(t);
                for (i, st) in steps.iter().enumerate().filter(|(_, s)| s.thread as usize == t) {
                    if let Kind::Nat { api, bytes, opts, mode } = &st.kind {
                        let mut r = StepRes::default();
                        run_native(api, bytes, opts, *mode, &mut r, true);
                        let _q = quiet();
                        res.lock().unwrap().push((i, r));
                    }
                }
                unsafe { seam::thread_leave(t) }
            }).unwrap());
        }
        for _ in 0..n { rrx.recv().unwrap() }
        unsafe {
            seam::sched_init(n, c.switches.clone(), c.slice);
            seam::ACTIVE = true;
            seam::sched_start(c.first);
            seam::wait_all_done();
            seam::ACTIVE = false;
            seam::SCHED_ON = false;
        }
    });
    unsafe { let _ = panic::take_hook(); }
    let mut all: Vec<(usize, StepRes)> = res.into_iter().flat_map(|m| m.into_inner().unwrap()).collect();
    all.sort_by_key(|x| x.0);
    for (_, mut r) in all {
        unsafe { r.live_blocks = seam::LIVE_BLOCKS; r.live_bytes = seam::LIVE_BYTES; }
        emit(fd, b'S', &enc(&r))
    }
}
// ---- parent side
pub static mut RUNS: u64 = 0;
pub static mut TICKS: u64 = 0;
pub static mut WANT_COV: bool = false;
pub static mut ALLCOV: Vec<bool> = Vec::new();
static mut HEAVY: bool = false;
pub fn run(s: &Scn) -> Run {
    unsafe {
        // memory left over from a huge reply makes every later fork slow
        if HEAVY { HEAVY = false; seam::malloc_trim(0); }
        RUNS += 1;
        let mut fds = [0i32; 2];
        if seam::pipe(fds.as_mut_ptr()) != 0 { harness_error("pipe") }
        let pid = seam::fork();
        if pid < 0 { harness_error("fork") }
        if pid == 0 {
            seam::raw_close(fds[0]);
            seam::prctl(1, 9u64, 0u64, 0u64, 0u64);
            seam::setrlimit(0, &[120, 121]);
            seam::setrlimit(4, &[0, 0]);
            child(s, fds[1], WANT_COV);
        }
        seam::raw_close(fds[1]);
        let (buf, timed_out) = read_timeout(fds[0], 240_000);
        seam::raw_close(fds[0]);
        HEAVY |= buf.len() > 4 << 20;
        if timed_out { seam::kill(pid, 9); }
        let mut st = 0;
        while seam::waitpid(pid, &mut st, 0) < 0 {}
        let mut out = Run { steps: vec![], end: End::Ok, taken: vec![], ticks: 0, rand_calls: 0, cov: vec![], futex_waits: 0, stderr: String::new() };
        let mut i = 0;
        let mut done = false;
        while i < buf.len() {
            if buf[i..].starts_with(b"HANG") { out.end = End::Hang; break }
            if buf[i..].starts_with(b"DEADLOCK") { out.end = End::Deadlock; break }
            let Some(nb) = buf.get(i + 1..i + 9) else { break };
            let n = u64::from_le_bytes(nb.try_into().unwrap()) as usize;
            let Some(body) = buf.get(i + 9..i + 9 + n) else { break };
            match buf[i] {
                b'S' => match dec(body) { Some(r) => out.steps.push(r), None => harness_error("decode") },
                b'E' => {
                    let mut r = R(body, 0);
                    out.taken = r.b().unwrap_or_default().to_vec(); out.ticks = r.u().unwrap_or(0); out.rand_calls = r.u().unwrap_or(0); out.futex_waits = r.u().unwrap_or(0);
                    let k = r.u().unwrap_or(0);
                    for _ in 0..k { let x = u32::from_le_bytes(body[r.1..r.1 + 4].try_into().unwrap()); r.1 += 4; out.cov.push(x) }
                    done = true;
                }
                _ => harness_error("frame"),
            }
            i += 9 + n;
        }
        if out.end == End::Ok && !done {
            let sig = st & 0x7f;
            out.end = if timed_out || sig == 24 { End::Stuck } else if sig != 0 { End::Signal(sig) } else { End::Exit((st >> 8) & 0xff) };
            if let End::Exit(c) = out.end { if (95..=99).contains(&c) { harness_error(&format!("child exit {c}")) } }
        }
        TICKS += out.ticks;
        if WANT_COV { if ALLCOV.len() < seam::MAXG { ALLCOV.resize(seam::MAXG, false) } for &x in &out.cov { ALLCOV[x as usize] = true } }
        out
    }
}
pub fn read_timeout(fd: i32, ms: i32) -> (Vec<u8>, bool) {
    let end = seam::mono_us() + ms as u64 * 1000;
    let mut v = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let now = seam::mono_us();
        if now >= end { return (v, true) }
        let mut p = seam::PollFd { fd, events: 1, revents: 0 };
        let r = unsafe { seam::poll(&mut p, 1, ((end - now) / 1000 + 1) as c_int) };
        if r < 0 { continue }
        if r == 0 { return (v, true) }
        let n = unsafe { seam::sys6(0, fd as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0) };
        if n == -4 { continue }
        if n <= 0 { return (v, false) }
        v.extend_from_slice(&buf[..n as usize]);
    }
}
pub fn harness_error(m: &str) -> ! {
    eprintln!("cpsim: harness error: {m}");
    std::process::exit(3)
}
