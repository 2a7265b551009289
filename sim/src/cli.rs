//! The command-line tool: the shipped binary, run as a process whose system calls
//! (through the preloaded shim) follow the scenario.
use crate::checks::{vd, Ctx, Verdict, Viol};
use crate::exec::{self, End};
use crate::gen::{self, Rng};
use crate::scn::*;
use crate::seam::{self, RFault, SimFile};
use std::ffi::{c_char, c_int, CString};

pub const MODES: [&str; 6] = ["", "-tokenize", "-leaf", "-safestring", "--cst", "--ast"];
extern "C" {
    fn execve(p: *const c_char, a: *const *const c_char, e: *const *const c_char) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
}
pub struct Out { pub stdout: Vec<u8>, pub code: i32, pub rep: Vec<i64>, pub stuck: bool }

pub fn generate(r: &mut Rng, s: &mut Scn, thorough: bool) {
    let file = r.p(1, 4);
    let max = if thorough { 400 } else { 120 };
    let mut b = vec![];
    if file { b = gen::source(r, max * 4); if r.p(1, 8) { gen::damage(r, &mut b); } } else {
        for _ in 0..r.n(if thorough { 12 } else { 6 }) {
            let mut l = if r.p(1, 5) { gen::quirky(r) } else { gen::source(r, max) };
            if r.p(2, 3) { l.retain(|c| *c != b'\n') }
            if r.p(1, 12) { gen::damage(r, &mut l); }
            if r.p(1, 8) { l.extend(r.ps(&["  ", "\t", "\r", " \r"]).bytes()) }
            if r.p(1, 10) { l.clear() }
            if r.p(1, 40) { l = crate::checks::big(r, l); l.truncate(70_000); if std::str::from_utf8(&l).is_err() { l.truncate(l.len() / 3 * 3) } l.retain(|c| *c != b'\n') }
            if r.p(1, 30) { let n = *r.pick(&[64, 128, 1024, 4096, 8192, 8192]); gen::exactly(r, &mut l, n); l.retain(|c| *c != b'\n'); if l.len() % 2 == 1 && r.p(1, 2) { l.push(b'q') } }
            if r.p(1, 40) { l = "\n".repeat(r.r(1, 5)).into_bytes() }
            b.extend(l);
            b.push(b'\n');
        }
        if r.p(1, 3) { b.pop(); }
    }
    if r.p(1, 12) { for _ in 0..r.r(300, 1200) { b.extend(r.ps(&["a+b\n", "xyz\n", "f[x]\n", "\n", "1\n"]).bytes()) } }
    if r.p(1, 15) { let n = *r.pick(&[1024, 4096, 8192, 8192, 16_384]); gen::exactly(r, &mut b, n) }
    if file && r.p(1, 15) { b = crate::checks::big(r, b) }
    b.truncate(if r.p(1, 10) { 200_000 } else { 40_000 });
    let n = b.len();
    let mut f = SimFile { path: if file { "/simfs/cli.wl".into() } else { "-".into() }, ..SimFile::default() };
    if file && r.p(1, 4) { f.open_err = vec![*r.pick(&[2, 13, 24, 4])] }
    if r.p(5, 6) {
        let hard = r.p(1, 6);
        f.reads = gen::read_faults(r, n.max(4), false);
        for _ in 0..r.log(40) { f.reads.push(if r.p(1, 5) { RFault::Eintr } else { RFault::Short(1 + r.log(40) as usize) }) }
        if hard { let at = r.n(f.reads.len() + 1); f.reads.insert(at, if r.p(2, 3) { RFault::Err(*r.pick(&[5, 11, 12, 104])) } else { RFault::Eof }) }
    }
    let mut o = Opts::default();
    o.quirks[1] = r.p(1, 5);
    o.enc = if r.p(1, 8) { r.r(1, 2) as i64 } else { 0 };
    let mode = if r.p(1, 3) { 0 } else { r.n(6) as i64 };
    let mut st = Step::new(nat("cli", &b, &o, mode));
    st.files.push(f);
    s.steps.push(st);
    if r.p(1, 2) { for _ in 0..r.r(1, 12) { s.knob.push(if r.p(1, 4) { 0 } else { 1 + r.log(30) }) } }
}
fn base() -> String { let e = std::env::current_exe().unwrap(); e.parent().unwrap().parent().unwrap().to_string_lossy().into_owned() }
pub fn run(s: &Scn) -> Out {
    let st = &s.steps[0];
    let Kind::Nat { bytes, opts, mode, .. } = &st.kind else { exec::harness_error("cli step") };
    let f = &st.files[0];
    let file = f.path != "-";
    let bin = std::env::var("CPSIM_CLI").unwrap_or_else(|_| format!("{}/cli/release/main", base()));
    let shim = std::env::var("CPSIM_SHIM").unwrap_or_else(|_| format!("{}/cli_shim.so", base()));
    let reads: Vec<String> = f.reads.iter().map(|x| match x { RFault::Eintr => "e4".into(), RFault::Err(e) => format!("e{e}"), RFault::Eof => "z0".into(), RFault::Short(n) => format!("s{n}") }).collect();
    let writes: Vec<String> = s.knob.iter().map(|k| if *k == 0 { "e4".into() } else { format!("s{k}") }).collect();
    let mut args = vec![bin.clone()];
    if !MODES[*mode as usize % 6].is_empty() { args.push(MODES[*mode as usize % 6].into()) }
    if opts.quirks[1] { args.push("--flatten-times".into()) }
    match opts.enc { 1 => args.push("-n".into()), 2 => args.push("-check".into()), _ => {} }
    if file { args.push("-file".into()); args.push(f.path.clone()) }
    let mut env = vec![format!("LD_PRELOAD={shim}"), format!("CPSIM_READS={}", reads.join(",")), format!("CPSIM_WRITES={}", writes.join(",")), format!("CPSIM_SEED={}", s.rand), "RUST_BACKTRACE=0".into()];
    if file { env.push(format!("CPSIM_PATH={}", f.path)); env.push(format!("CPSIM_OPEN={}", f.open_err.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(","))) }
    let cs = |v: &[String]| -> Vec<CString> { v.iter().map(|x| CString::new(x.as_str()).unwrap()).collect() };
    let (ca, ce) = (cs(&args), cs(&env));
    let ptrs = |v: &[CString]| -> Vec<*const c_char> { v.iter().map(|x| x.as_ptr()).chain([std::ptr::null()]).collect() };
    let (pa, pe) = (ptrs(&ca), ptrs(&ce));
    unsafe {
        let mut p = [[0i32; 2]; 3];
        for x in &mut p { if seam::pipe(x.as_mut_ptr()) != 0 { exec::harness_error("pipe") } }
        if bytes.len() > 65_000 && seam::sys6(72, p[0][1] as i64, 1031, 1 << 20, 0, 0, 0) < bytes.len() as i64 { exec::harness_error("pipe size") }
        seam::raw_write(p[0][1], bytes);
        seam::raw_close(p[0][1]);
        let pid = seam::fork();
        if pid < 0 { exec::harness_error("fork") }
        if pid == 0 {
            seam::prctl(1, 9u64, 0u64, 0u64, 0u64);
            seam::setrlimit(0, &[20, 21]);
            seam::setrlimit(4, &[0, 0]);
            // move everything out of the way of 0..3 first
            let (a, b, c) = (dup3(p[0][0], 20), dup3(p[1][1], 21), dup3(p[2][1], 22));
            for x in &p { for y in x { if *y > 2 { seam::raw_close(*y) } } }
            let null = seam::sys6(2, b"/dev/null\0".as_ptr() as i64, 1, 0, 0, 0, 0) as i32;
            dup2(null, 2); dup2(a, 0); dup2(b, 1); dup2(c, 3);
            for x in [20, 21, 22] { seam::raw_close(x) }
            if null > 3 { seam::raw_close(null); }
            execve(pa[0], pa.as_ptr(), pe.as_ptr());
            seam::_exit(98)
        }
        for x in [p[0][0], p[1][1], p[2][1]] { seam::raw_close(x) }
        let (stdout, t1) = exec::read_timeout(p[1][0], 60_000);
        if t1 { seam::kill(pid, 9); }
        let (rep, _) = exec::read_timeout(p[2][0], 5_000);
        let mut st = 0;
        while seam::waitpid(pid, &mut st, 0) < 0 {}
        seam::raw_close(p[1][0]); seam::raw_close(p[2][0]);
        exec::RUNS += 1;
        let code = if st & 0x7f != 0 { -(st & 0x7f) } else { (st >> 8) & 0xff };
        if code == 98 { exec::harness_error("cannot run the command-line tool") }
        let rep: Vec<i64> = String::from_utf8_lossy(&rep).split_whitespace().filter_map(|x| x.parse().ok()).collect();
        Out { stdout, code, stuck: t1 || code == -24 || code == 77 || rep.get(9) == Some(&1), rep }
    }
}
unsafe fn dup3(a: i32, b: i32) -> i32 { if dup2(a, b) < 0 { seam::_exit(98) } b }
fn bad(class: &str, detail: String) -> Option<Viol> { Some(Viol { class: class.into(), detail }) }
/// What the tool owes for one piece of input: its output, or None when the
/// library itself refuses it (encoding error in a mode that has no way to show it).
fn answer(cx: &mut Ctx, line: &[u8], st: &Step) -> Result<Option<String>, Viol> {
    let Kind::Nat { opts, mode, .. } = &st.kind else { unreachable!() };
    let mut o = Opts::default();
    o.quirks = [true, opts.quirks[1], false];
    let (x, e) = cx.fresh(&Step::new(nat("cliout", line, &o, *mode)));
    if e != End::Ok { return Err(Viol { class: "crash".into(), detail: format!("{e:?} parsing one line") }) }
    if x.native.starts_with("PANIC") || x.native == "REFUSED" { return Ok(None) }
    Ok(Some(if opts.enc == 0 { format!("{}\n", x.native.strip_prefix("OUT ").unwrap_or_default()) } else { String::new() }))
}
pub fn judge(s: &Scn, cx: &mut Ctx) -> Verdict {
    let st = s.steps[0].clone();
    let Kind::Nat { bytes, .. } = &st.kind else { return vd(None, false, 0) };
    let file = st.files[0].path != "-";
    let x = run(s);
    let key = crate::checks::scn_key(s);
    if x.stuck { return vd(bad("does-not-stop", format!("the tool goes on after end of input (exit {})", x.code)), true, key) }
    if x.rep.len() < 10 && x.code >= 0 { return vd(bad("crash", format!("the tool ended abnormally, exit status {}", x.code)), true, key) }
    if x.code < 0 { return vd(bad("crash", format!("the tool was killed by signal {}", -x.code)), true, key) }
    for (i, k) in [(1, "read_eintr"), (2, "read_short"), (3, "read_error"), (4, "read_early_eof"), (5, "write_eintr"), (6, "write_short")] { cx.stat(k, x.rep[i] as u64) }
    let hard = x.rep[3] > 0;
    let got = &bytes[..(x.rep[0] as usize).min(bytes.len())];
    let out = String::from_utf8_lossy(&x.stdout).replace(">>> ", "");
    let mut want = String::new();
    let mut err = false; // an error exit is owed
    let mut free = false; // the text may be refused: error exit allowed from here on
    let mut lines = 0u64;
    if file {
        cx.stat("file_runs", 1);
        let opened = x.rep[7] > 0 && st.files[0].open_err.iter().all(|e| *e == 4);
        if !opened || hard { err = true; cx.stat("open_error", !opened as u64) } else {
            match answer(cx, got, &st) { Ok(Some(t)) => want = t, Ok(None) => free = true, Err(v) => return vd(Some(v), true, key) }
            lines = 1;
        }
    } else {
        let mut v: Vec<&[u8]> = got.split_inclusive(|c| *c == b'\n').collect();
        // a read error loses the unfinished line
        if hard { if let Some(l) = v.last() { if !l.ends_with(b"\n") { v.pop(); } } err = true }
        for l in v {
            let Ok(t) = std::str::from_utf8(l) else { free = true; break };
            match answer(cx, t.trim_end().as_bytes(), &st) { Ok(Some(t)) => want += &t, Ok(None) => { free = true; break } Err(v) => return vd(Some(v), true, key) }
            lines += 1;
        }
        cx.stat("lines_answered", lines);
    }
    let want = want.replace(">>> ", "");
    let v = if free {
        // everything before it is answered; what the refused text gives is the library's affair
        if !out.starts_with(&want) { bad("wrong-output", near(&out, &want)) } else if x.code == 0 && file { None } else { None }
    } else if out != want { bad("wrong-output", format!("{} ({} bytes delivered, {} lines, exit {})", near(&out, &want), x.rep[0], lines, x.code)) }
    else if err && x.code == 0 { bad("no-error-exit", "input could not be read but the exit status is 0".into()) }
    else if !err && x.code != 0 { bad("error-exit", format!("exit status {} after {} lines", x.code, lines)) }
    else if !err && !file && x.rep[8] == 0 { bad("wrong-output", "the tool stopped before end of input".into()) }
    else { None };
    vd(v, lines > 0 || err, key)
}
fn near(a: &str, b: &str) -> String {
    let p = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let c = |s: &str| -> String { s.bytes().skip(p.saturating_sub(20)).take(120).map(|x| if (32..127).contains(&x) { x as char } else { '.' }).collect() };
    format!("output differs at byte {p}: printed {:?}, owed {:?}", c(a), c(b))
}
