//! Simulated WSTP loopback link and Wolfram runtime (AbortQ, validatePath).
#![allow(non_snake_case, clippy::missing_safety_doc)]
use crate::seam::{self, quiet, FsEv};
use crate::value::*;
use std::collections::VecDeque;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

#[derive(Clone, Debug, PartialEq)]
pub enum LFault { Transient(i32), Dead }
#[derive(Default)]
pub struct Link {
    pub fifo: VecDeque<Tok>,
    r: Vec<usize>,
    pub w: Vec<usize>,
    pending_func: bool,
    peeked: bool,
    pub err: i32,
    pub dead: bool,
    pub ops: u64,
    pub plan: Vec<(u64, LFault)>,
    pub fired: [u64; 2],
    pub bufs: Vec<(usize, usize, Box<[u64]>)>,
    pub bad_release: u64,
    pub puts: u64,
    pub gets: u64,
    pub clears: u64,
    pub first_put_tick: u64,
    pub fired_at_put: bool,
}
pub static mut LINK: Option<Link> = None;
pub fn link() -> &'static mut Link { unsafe { LINK.as_mut().unwrap() } }

pub const EGSEQ: i32 = 3;
pub const EPSEQ: i32 = 5;
pub const EOVFL: i32 = 7;
pub const EDEAD: i32 = 1;
impl Link {
    pub fn load(&mut self, v: &V) { let mut t = vec![]; v.flatten(&mut t); self.fifo.extend(t) }
    /// One data operation: returns false if it must fail.
    fn op(&mut self) -> bool {
        self.ops += 1;
        if self.dead { self.err = EDEAD; return false }
        if self.err != 0 { return false }
        let k = self.ops;
        if let Some(i) = self.plan.iter().position(|f| f.0 == k) {
            match self.plan[i].1 {
                LFault::Transient(c) => { self.err = c; self.fired[0] += 1 }
                LFault::Dead => { self.err = EDEAD; self.dead = true; self.fired[1] += 1 }
            }
            return false;
        }
        true
    }
    fn fail(&mut self, c: i32) -> c_int { if self.err == 0 { self.err = c } 0 }
    fn expand(&mut self) {
        if let Some(Tok::Bytes(_)) = self.fifo.front() {
            let Some(Tok::Bytes(b)) = self.fifo.pop_front() else { unreachable!() };
            for x in b.iter().rev() { self.fifo.push_front(Tok::Int(*x as i64)) }
            self.fifo.push_front(Tok::Sym("List".into()));
            self.fifo.push_front(Tok::Func(b.len()));
        }
    }
    fn atom_read(&mut self) {
        self.peeked = false;
        if let Some(t) = self.r.last_mut() { *t -= 1 }
        while self.r.last() == Some(&0) { self.r.pop(); if let Some(t) = self.r.last_mut() { *t -= 1 } }
    }
    fn take(&mut self) -> Option<Tok> {
        let t = self.fifo.pop_front()?;
        match t { Tok::Func(n) => { self.peeked = false; self.r.push(n + 1) } _ => self.atom_read() }
        Some(t)
    }
    fn put(&mut self, t: Tok) {
        if self.puts == 0 { self.first_put_tick = unsafe { seam::TICK } }
        self.puts += 1;
        match t {
            Tok::Func(n) => { self.fifo.push_back(t); self.w.push(n + 1) }
            _ => {
                self.fifo.push_back(t);
                if let Some(x) = self.w.last_mut() { *x -= 1 }
                while self.w.last() == Some(&0) { self.w.pop(); if let Some(x) = self.w.last_mut() { *x -= 1 } }
            }
        }
    }
    fn buf(&mut self, b: &[u8]) -> *mut u8 {
        let mut v = vec![0u64; b.len() / 8 + 4].into_boxed_slice();
        // where the text lies and what lies around it are inputs too
        let place = unsafe { crate::seam::PLACE };
        if place != 0 { let mut z = place; for x in v.iter_mut() { *x = crate::seam::splitmix(&mut z) } }
        let p = unsafe { (v.as_mut_ptr() as *mut u8).add(if b.len() == 4 { 0 } else { place as usize % 16 }) };
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) }
        self.bufs.push((p as usize, b.len(), v));
        p
    }
    fn release(&mut self, p: usize) {
        match self.bufs.iter().position(|b| b.0 == p) {
            Some(i) => {
                // poison: a use after release shows up as garbage
                let mut b = self.bufs.swap_remove(i);
                for x in b.2.iter_mut() { *x = 0xDEDE_DEDE_DEDE_DEDE }
            }
            None => self.bad_release += 1,
        }
    }
    pub fn request_unread(&self) -> bool { !self.r.is_empty() }
    pub fn reply_open(&self) -> bool { !self.w.is_empty() || self.pending_func }
    pub fn drain(&mut self) -> Vec<Tok> {
        self.r.clear(); self.w.clear(); self.pending_func = false; self.peeked = false;
        self.fifo.drain(..).collect()
    }
}
type L = *mut c_void;
macro_rules! get_int { ($name:ident, $t:ty) => {
    #[no_mangle] pub unsafe extern "C" fn $name(_l: L, out: *mut $t) -> c_int {
        let _q = quiet(); let k = link(); k.gets += 1;
        if !k.op() { return 0 }
        match k.fifo.front() {
            Some(Tok::Int(i)) => match <$t>::try_from(*i) { Ok(x) => { *out = x; k.take(); 1 } Err(_) => k.fail(EOVFL) },
            Some(Tok::Big(_)) => k.fail(EOVFL),
            _ => k.fail(EGSEQ),
        }
    } } }
get_int!(WSGetInteger64, i64);
get_int!(WSGetInteger32, i32);
get_int!(WSGetInteger16, i16);
get_int!(WSGetInteger8, u8);
#[no_mangle] pub unsafe extern "C" fn WSGetReal64(_l: L, out: *mut f64) -> c_int {
    let _q = quiet(); let k = link(); k.gets += 1;
    if !k.op() { return 0 }
    match k.fifo.front() { Some(Tok::Real(b)) => { *out = f64::from_bits(*b); k.take(); 1 } Some(Tok::Int(b)) => { *out = *b as f64; k.take(); 1 } _ => k.fail(EGSEQ) }
}
#[no_mangle] pub unsafe extern "C" fn WSGetReal32(l: L, out: *mut f32) -> c_int { let mut d = 0f64; let r = WSGetReal64(l, &mut d); *out = d as f32; r }
#[no_mangle] pub unsafe extern "C" fn WSGetType(_l: L) -> c_int {
    let _q = quiet(); let k = link(); k.gets += 1;
    if !k.op() { return 0 }
    k.peeked = true;
    match k.fifo.front() {
        Some(Tok::Int(_)) | Some(Tok::Big(_)) => b'+' as c_int,
        Some(Tok::Real(_)) => b'*' as c_int,
        Some(Tok::Str(_)) => b'"' as c_int,
        Some(Tok::Sym(_)) => b'#' as c_int,
        Some(Tok::Func(_)) | Some(Tok::Bytes(_)) => b'F' as c_int,
        None => k.fail(EGSEQ),
    }
}
#[no_mangle] pub unsafe extern "C" fn WSGetNext(l: L) -> c_int { WSGetType(l) }
#[no_mangle] pub unsafe extern "C" fn WSGetArgCount(_l: L, out: *mut c_int) -> c_int {
    let _q = quiet(); let k = link(); k.gets += 1;
    if !k.op() { return 0 }
    k.expand();
    match k.fifo.front() { Some(Tok::Func(n)) => { *out = *n as c_int; k.take(); 1 } _ => k.fail(EGSEQ) }
}
unsafe fn get_text(want_sym: bool, out: *mut *const u8, n: *mut c_int, ch: *mut c_int) -> c_int {
    let _q = quiet(); let k = link(); k.gets += 1;
    if !k.op() { return 0 }
    let s = match k.fifo.front() { Some(Tok::Sym(s)) if want_sym => s.clone(), Some(Tok::Str(s)) if !want_sym => s.clone(), _ => return k.fail(EGSEQ) };
    k.take();
    *out = k.buf(s.as_bytes());
    *n = s.len() as c_int;
    if !ch.is_null() { *ch = s.chars().count() as c_int }
    1
}
#[no_mangle] pub unsafe extern "C" fn WSGetUTF8String(_l: L, o: *mut *const u8, n: *mut c_int, c: *mut c_int) -> c_int { get_text(false, o, n, c) }
#[no_mangle] pub unsafe extern "C" fn WSGetUTF8Symbol(_l: L, o: *mut *const u8, n: *mut c_int, c: *mut c_int) -> c_int { get_text(true, o, n, c) }
#[no_mangle] pub unsafe extern "C" fn WSReleaseUTF8String(_l: L, p: *const u8, _n: c_int) { let _q = quiet(); link().release(p as usize) }
#[no_mangle] pub unsafe extern "C" fn WSReleaseUTF8Symbol(_l: L, p: *const u8, _n: c_int) { let _q = quiet(); link().release(p as usize) }
#[no_mangle] pub unsafe extern "C" fn WSTestHead(_l: L, s: *const c_char, n: *mut c_int) -> c_int {
    let _q = quiet(); let k = link(); k.gets += 1;
    if !k.op() { return 0 }
    k.expand();
    let want = CStr::from_ptr(s).to_string_lossy().into_owned();
    match (k.fifo.front(), k.fifo.get(1)) {
        (Some(Tok::Func(c)), Some(Tok::Sym(h))) if *h == want => { *n = *c as c_int; k.take(); k.take(); 1 }
        _ => k.fail(EGSEQ),
    }
}
#[no_mangle] pub unsafe extern "C" fn WSGetInteger8Array(_l: L, data: *mut *mut u8, dims: *mut *mut c_int, heads: *mut *mut *mut c_char, depth: *mut c_int) -> c_int {
    let _q = quiet(); let k = link(); k.gets += 1;
    if !k.op() { return 0 }
    let b = match k.fifo.front() { Some(Tok::Bytes(b)) => b.clone(), _ => return k.fail(EGSEQ) };
    k.take();
    *data = k.buf(&b);
    let n = (b.len() as i32).to_le_bytes();
    *dims = k.buf(&n) as *mut c_int;
    *heads = std::ptr::null_mut();
    *depth = 1;
    1
}
#[no_mangle] pub unsafe extern "C" fn WSReleaseInteger8Array(_l: L, data: *mut u8, dims: *mut c_int, _h: *mut *mut c_char, _d: c_int) {
    let _q = quiet(); let k = link(); k.release(data as usize); k.release(dims as usize);
}
macro_rules! put_atom { ($name:ident, $($a:ident : $t:ty),* => $e:expr) => {
    #[no_mangle] pub unsafe extern "C" fn $name(_l: L, $($a: $t),*) -> c_int {
        let _q = quiet(); let k = link();
        if !k.op() { if k.fired[0] + k.fired[1] > 0 { k.fired_at_put = true } return 0 }
        if k.pending_func { return k.fail(EPSEQ) }
        k.put($e); 1
    } } }
put_atom!(WSPutInteger64, v: i64 => Tok::Int(v));
put_atom!(WSPutInteger32, v: c_int => Tok::Int(v as i64));
put_atom!(WSPutInteger16, v: c_int => Tok::Int(v as i16 as i64));
put_atom!(WSPutInteger8, v: u8 => Tok::Int(v as i64));
put_atom!(WSPutReal64, v: f64 => Tok::Real(v.to_bits()));
put_atom!(WSPutReal32, v: f64 => Tok::Real(v.to_bits()));
put_atom!(WSPutUTF8String, p: *const u8, n: c_int => Tok::Str(String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).into_owned()));
put_atom!(WSPutUTF8Symbol, p: *const u8, n: c_int => Tok::Sym(String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).into_owned()));
#[no_mangle] pub unsafe extern "C" fn WSPutType(_l: L, t: c_int) -> c_int {
    let _q = quiet(); let k = link();
    if !k.op() { if k.fired[0] + k.fired[1] > 0 { k.fired_at_put = true } return 0 }
    if k.pending_func || t != b'F' as c_int { return k.fail(EPSEQ) }
    k.pending_func = true; 1
}
#[no_mangle] pub unsafe extern "C" fn WSPutArgCount(_l: L, n: c_int) -> c_int {
    let _q = quiet(); let k = link();
    if !k.op() { if k.fired[0] + k.fired[1] > 0 { k.fired_at_put = true } return 0 }
    if !k.pending_func || n < 0 { return k.fail(EPSEQ) }
    k.pending_func = false; k.put(Tok::Func(n as usize)); 1
}
// a list of machine integers in one operation
macro_rules! put_array { ($name:ident, $t:ty) => {
    #[no_mangle] pub unsafe extern "C" fn $name(_l: L, data: *const $t, dims: *const c_int, heads: *const *const c_char, depth: c_int) -> c_int {
        let _q = quiet(); let k = link();
        if !k.op() { if k.fired[0] + k.fired[1] > 0 { k.fired_at_put = true } return 0 }
        if k.pending_func { return k.fail(EPSEQ) }
        if depth != 1 || !heads.is_null() { unexpected() }
        let n = *dims as usize;
        k.put(Tok::Func(n)); k.put(Tok::Sym("List".into()));
        for i in 0..n { k.put(Tok::Int(*data.add(i) as i64)) }
        1
    } } }
put_array!(WSPutInteger64Array, i64);
put_array!(WSPutInteger32Array, c_int);
#[no_mangle] pub unsafe extern "C" fn WSNewPacket(_l: L) -> c_int {
    let _q = quiet(); let k = link();
    if !k.op() { return 0 }
    if k.r.is_empty() && !k.peeked { return 1 }
    k.peeked = false;
    if k.r.is_empty() { if k.fifo.is_empty() { return 1 } k.r.push(1) }
    // discard to the end of the expression being read
    while !k.r.is_empty() {
        if k.take().is_none() {
            k.r.clear(); k.w.clear(); k.pending_func = false;
            return k.fail(EGSEQ);
        }
    }
    if k.fifo.is_empty() && (!k.w.is_empty() || k.pending_func) { k.w.clear(); k.pending_func = false; return k.fail(EPSEQ) }
    1
}
#[no_mangle] pub unsafe extern "C" fn WSEndPacket(_l: L) -> c_int { let _q = quiet(); let k = link(); if !k.op() { return 0 } 1 }
#[no_mangle] pub unsafe extern "C" fn WSFlush(_l: L) -> c_int { let _q = quiet(); let k = link(); if !k.op() { return 0 } 1 }
#[no_mangle] pub unsafe extern "C" fn WSReady(_l: L) -> c_int { let _q = quiet(); (!link().fifo.is_empty()) as c_int }
#[no_mangle] pub unsafe extern "C" fn WSClearError(_l: L) -> c_int { let _q = quiet(); let k = link(); k.clears += 1; if !k.dead { k.err = 0 } 1 }
#[no_mangle] pub unsafe extern "C" fn WSError(_l: L) -> c_int { let _q = quiet(); link().err }
static MSG: &[u8] = b"simulated link error\0";
#[no_mangle] pub unsafe extern "C" fn WSErrorMessage(_l: L) -> *const c_char { MSG.as_ptr() as *const c_char }
#[no_mangle] pub unsafe extern "C" fn WSReleaseErrorMessage(_l: L, _p: *const c_char) {}
#[no_mangle] pub unsafe extern "C" fn WSErrorString(_e: L, _c: c_long) -> *const c_char { MSG.as_ptr() as *const c_char }
#[no_mangle] pub unsafe extern "C" fn WSIsLinkLoopback(_l: L) -> c_int { 1 }
#[no_mangle] pub unsafe extern "C" fn WSInitialize(_p: L) -> L { 8 as L }
#[no_mangle] pub unsafe extern "C" fn WSDeinitialize(_p: L) {}
#[no_mangle] pub unsafe extern "C" fn WSClose(_p: L) {}
fn unexpected() -> ! { seam::raw_write(2, b"cpsim: unmodelled WSTP call\n"); unsafe { seam::_exit(99) } }
macro_rules! stubs { ($($n:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n() -> c_long { unexpected() } )* } }
stubs!(WSActivate WSGetInteger16Array WSGetInteger32Array WSGetInteger64Array WSGetReal32Array WSGetReal64Array
 WSReleaseInteger16Array WSReleaseInteger32Array WSReleaseInteger64Array WSReleaseReal32Array WSReleaseReal64Array
 WSGetUTF16String WSGetUTF32String WSReleaseUTF16String WSReleaseUTF32String WSReleaseUTF16Symbol WSReleaseUTF32Symbol
 WSGetMessage WSMessageReady WSPutMessageWithArg WSLoopbackOpen WSName WSNextPacket WSOpenArgcArgv
 WSPutUTF16String WSPutUTF32String WSPutInteger8Array WSPutInteger16Array WSPutReal32Array WSPutReal64Array
 WSSetUserData WSUserData WSTransferExpression WSTransferToEndOfLoopbackLink WSWaitForLinkActivity WSWaitForLinkActivityWithCallback
 WSContextFromLinkServer WSInterfaceFromLinkServer WSNewLinkServerWithPort WSNewLinkServerWithPortAndInterface WSPortFromLinkServer
 WSRegisterCallbackFunctionWithLinkServer WSReleaseInterfaceFromLinkServer WSShutdownLinkServer WSWaitForNewLinkFromLinkServer);

// ---------------------------------------------------------------- runtime library
#[derive(Clone, Debug, PartialEq, Default)]
pub enum Abort { #[default] No, Tick(u64), Poll(u64) }
pub struct Rtl { pub abort: Abort, pub base_tick: u64, pub polls: u64, pub aborted_at: u64, pub seen_at: u64, pub deny: bool, pub validations: u64 }
pub static mut RTL: Rtl = Rtl { abort: Abort::No, base_tick: 0, polls: 0, aborted_at: 0, seen_at: 0, deny: false, validations: 0 };
unsafe extern "C" fn abort_q() -> isize {
    RTL.polls += 1;
    let t = seam::TICK - RTL.base_tick;
    let on = match RTL.abort { Abort::No => false, Abort::Tick(k) => t >= k, Abort::Poll(k) => RTL.polls >= k };
    if on && RTL.seen_at == 0 { RTL.seen_at = seam::TICK.max(1); if RTL.aborted_at == 0 { RTL.aborted_at = match RTL.abort { Abort::Tick(k) => k + RTL.base_tick, _ => seam::TICK } } }
    on as isize
}
unsafe extern "C" fn validate_path(p: *mut c_char, mode: c_char) -> u32 {
    let _q = quiet();
    RTL.validations += 1;
    let ok = !RTL.deny && mode as u8 == b'R';
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    if let Some(fs) = seam::FS.as_mut() { fs.log.push(FsEv::Validate(s, ok)) }
    ok as u32
}
unsafe extern "C" fn trap() { seam::raw_write(2, b"cpsim: unmodelled runtime call\n"); seam::_exit(98) }
pub fn libdata() -> wolfram_library_link::sys::WolframLibraryData {
    use wolfram_library_link::sys::st_WolframLibraryData as D;
    const N: usize = std::mem::size_of::<D>() / 8;
    static mut DATA: [usize; N] = [0; N];
    unsafe {
        for w in DATA.iter_mut() { *w = trap as usize }
        let d = DATA.as_mut_ptr() as *mut D;
        (*d).AbortQ = Some(std::mem::transmute(abort_q as *const ()));
        (*d).validatePath = Some(std::mem::transmute(validate_path as *const ()));
        (*d).VersionNumber = wolfram_library_link::sys::WolframLibraryVersion as _;
        d
    }
}
