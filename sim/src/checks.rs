//! The properties: how scenarios are made for each, and how a run is judged.
use crate::exec::{self, End, Run, StepRes};
use crate::gen::{self, Rng};
use crate::scn::*;
use crate::seam::{FsEv, RFault};
use crate::value::*;
use crate::wstp::{Abort, LFault};
use std::collections::{BTreeMap, HashMap};

pub struct Viol { pub class: String, pub detail: String }
pub struct Verdict { pub viol: Option<Viol>, pub nontrivial: bool, pub key: u64 }
#[derive(Default)]
pub struct Ctx { pub memo: HashMap<String, StepRes>, pub stats: BTreeMap<String, u64>, pub baselines: u64, pub keys: std::collections::HashSet<u64> }
pub fn hash(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }
fn bad(class: &str, detail: String) -> Option<Viol> { Some(Viol { class: class.into(), detail }) }
impl Ctx {
    pub fn stat(&mut self, k: &str, n: u64) { if n > 0 { *self.stats.entry(k.into()).or_insert(0) += n } }
    /// The same step, alone, in a pristine process.
    pub fn fresh(&mut self, st: &Step) -> (StepRes, End) {
        let mut s = Scn::new("base", 0);
        let mut st = st.clone();
        st.thread = 0;
        s.steps.push(st);
        s.rand = 77;
        let key = s.to_text();
        if let Some(r) = self.memo.get(&key) { return (r.clone(), End::Ok) }
        let r = exec::run(&s);
        self.baselines += 1;
        let e = r.end.clone();
        let x = r.steps.into_iter().next().unwrap_or_default();
        if e == End::Ok { if x.puts < 3000 { if self.memo.len() > 400 { self.memo.clear() } self.memo.insert(key, x.clone()); } }
        (x, e)
    }
    fn note(&mut self, s: &Scn, r: &Run) {
        for (st, x) in s.steps.iter().zip(&r.steps) {
            self.stat("link_error_transient", x.fired[0]);
            self.stat("link_error_dead", x.fired[1]);
            if x.aborted_at > 0 { self.stat("abort_raised", 1) }
            if x.seen_at > 0 { self.stat("abort_seen_by_code", 1) }
            self.stat("read_eintr", x.fsfired[0]); self.stat("read_short", x.fsfired[1]); self.stat("read_error", x.fsfired[2]); self.stat("read_early_eof", x.fsfired[3]);
            if st.deny && x.validations > 0 { self.stat("permission_refused", 1) }
            for e in &x.fslog { if let FsEv::Open(_, e) = e { if *e != 0 { self.stat("open_error", 1) } } }
            if st.files.iter().any(|f| f.size_lie.is_some()) && x.fslog.iter().any(|e| matches!(e, FsEv::Stat(_))) { self.stat("file_size_misreported", 1) }
            if matches!(&st.kind, Kind::Lib { .. }) { self.stat("requests_served", 1) } else { self.stat("native_calls", 1) }
        }
        if s.conc.is_some() { self.stat("thread_preemptions", r.taken.len() as u64); self.stat("futex_waits", r.futex_waits); }
    }
}
pub fn norm(v: &V) -> V {
    if v.is_failure() { return fun("Failure", vec![st(&v.failure_message())]) }
    let mut v = sort_assoc(&v.canon());
    if let V::Fun(h, a) = &mut v {
        if h.is_sym("List") && a.len() == 6 && a[2..].iter().all(|x| x.is_fun("List") && x.args().iter().all(|y| y.is_fun("List") && y.args().len() == 2 && y.args().iter().all(|z| z.as_int().is_some()))) {
            for x in &mut a[2..] { if let V::Fun(_, p) = x { p.sort_by_key(|y| (y.args()[0].as_int(), y.args()[1].as_int())) } }
        }
    }
    v
}
fn sort_assoc(v: &V) -> V {
    match v {
        V::Fun(h, a) => {
            let mut a: Vec<V> = a.iter().map(sort_assoc).collect();
            if h.is_sym("Association") {
                // the kernel splices an association written inside an association
                a = a.into_iter().flat_map(|x| match x { V::Fun(g, b) if g.is_sym("Association") => b, x => vec![x] }).collect();
                a.sort_by_cached_key(|x| x.args().first().map(text).unwrap_or_default())
            }
            V::Fun(Box::new(sort_assoc(h)), a)
        }
        x => x.clone(),
    }
}
/// What a caller sees of one step.
#[derive(PartialEq, Clone, Debug)]
pub enum Seen { Err(i64), One(V), Garbled(String), Native(String) }
pub fn seen(st: &Step, r: &StepRes) -> Seen {
    match &st.kind {
        Kind::Nat { .. } => Seen::Native(r.native.clone()),
        Kind::Lib { .. } => {
            if r.ret != 0 { return Seen::Err(r.ret) }
            if r.exprs.len() == 1 && r.leftover == 0 && !r.open && !r.unread && r.err == 0 { return Seen::One(norm(&r.exprs[0])) }
            Seen::Garbled(format!("{} whole expressions, {} stray tokens, reply open: {}, request unread: {}, link error: {}", r.exprs.len(), r.leftover, r.open, r.unread, r.err))
        }
    }
}
pub fn show_seen(s: &Seen) -> String { match s { Seen::Err(c) => format!("error code {c}"), Seen::One(v) => short(v), Seen::Garbled(g) => format!("garbled reply ({g})"), Seen::Native(n) => { let mut k = n.len().min(300); while !n.is_char_boundary(k) { k -= 1 } n[..k].to_string() } } }
fn what(st: &Step) -> String { match &st.kind { Kind::Lib { func, .. } => func.clone(), Kind::Nat { api, .. } => format!("native {api}") } }
fn end_viol(r: &Run, n: usize, s: &Scn) -> Option<Viol> {
    if r.end == End::Ok && r.steps.len() == n { return None }
    let at = s.steps.get(r.steps.len()).map(what).unwrap_or_default();
    bad(match r.end { End::Hang | End::Stuck => "hang", End::Deadlock => "deadlock", _ => "crash" }, format!("{:?} during step {} ({at})", r.end, r.steps.len()))
}
/// First difference between two expressions, for the report.
fn diff(a: &V, b: &V) -> String {
    fn go(a: &V, b: &V, p: &mut Vec<String>) -> Option<String> {
        if a == b { return None }
        if let (V::Fun(h, x), V::Fun(g, y)) = (a, b) {
            if h == g && x.len() == y.len() { for (i, (u, w)) in x.iter().zip(y).enumerate() { p.push(format!("{}", i + 1)); if let Some(d) = go(u, w, p) { return Some(d) } p.pop(); } }
        }
        Some(format!("at [{}]: {} vs {}", p.join(","), short(a), short(b)))
    }
    go(a, b, &mut vec![]).unwrap_or_default()
}
fn differ(a: &Seen, b: &Seen) -> String { match (a, b) { (Seen::One(x), Seen::One(y)) => diff(x, y), _ => format!("{} vs {}", show_seen(a), show_seen(b)) } }

pub const IDS: [&str; 16] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C22"];

pub fn generate(id: &str, seed: u64, thorough: bool) -> Scn {
    let mut rr = Rng::new(seed, hash(id.as_bytes()));
    let r = &mut rr;
    let mut s = Scn::new(id, seed);
    s.rand = r.u();
    s.clock = r.u() >> 2;
    let max = if thorough { *r.pick(&[120, 400, 1500]) } else { *r.pick(&[60, 150, 400]) };
    match id {
        "C01" => {
            let n = r.r(1, if thorough { 8 } else { 5 });
            let threads = if r.p(1, 20) { r.r(4, 40) } else { r.r(1, 3) };
            if r.p(1, 15) {
                // a long history of small requests: what builds up slowly
                let f = r.n(9);
                let pool: Vec<Step> = (0..r.r(3, 10)).map(|_| match r.n(5) { 0 => gen::faulty(r, 20), 1 => { let mut st = gen::request(r, 20); let b = gen::hot(r, f); set_payload(&mut st, b); st } 2 => Step::new(gen::native_step(r, 20)), 3 => { let mut st = gen::request(r, 20); let b = gen::sensitive(r); set_payload(&mut st, b); st } _ => gen::request(r, 20) }).collect();
                let mut pool = pool;
                if r.p(1, 2) { for i in 0..pool.len() { if let Some(b) = payload(&pool[i]) { let b = gen::twin(r, b); let mut st = pool[i].clone(); set_payload(&mut st, b); pool.push(st) } } }
                for _ in 0..r.r(40, if thorough { 600 } else { 250 }) { let mut st = r.pick(&pool).clone(); st.thread = r.n(threads) as u8; s.steps.push(st) }
            }
            let fam = r.n(18);
            for _ in 0..n {
                let mut st = match r.n(6) { 0 | 1 => gen::faulty(r, max), 2 => Step::new(gen::native_step(r, max)), 3 => abs_or_rt(r, max), _ => gen::request(r, max) };
                st.thread = r.n(threads) as u8;
                if fam < 9 && r.p(1, 2) { let b = gen::hot(r, fam); set_payload(&mut st, b) }
                s.steps.push(st)
            }
            // the request whose reply is compared: often a variation of an earlier one
            let mut last = if r.p(1, 4) { Step::new(gen::native_step(r, max)) } else if r.p(1, 6) { abs_or_rt(r, max) } else { gen::request(r, max) };
            if r.p(1, 2) { if let Some(b) = s.steps.iter().rev().find_map(payload) { let mut b = b.to_vec(); match r.n(3) { 0 => { gen::damage(r, &mut b); } 1 => b = gen::twin(r, &b), _ => {} } set_payload(&mut last, b) } } else if fam < 9 { let b = gen::hot(r, fam); set_payload(&mut last, b) }
            last.thread = r.n(threads) as u8;
            s.steps.push(last);
            if r.p(1, 6) {
                // a request broken off halfway, then one with other options that show
                s.steps.clear();
                for _ in 0..r.r(1, 3) {
                    let b = gen::sensitive(r);
                    let o = gen::opts(r);
                    let mut st = match r.n(6) { 0 => { let mut st = Step::new(parse_file("ConcreteParseFile", "/simfs/f.wl", &o)); st.files.push(gen::file(r, "/simfs/f.wl", b)); st } 1 => Step::new(leaf(&b, r.n(3) as i64, &o)), 2 => Step::new(parse_bytes("TokenizeBytes", &b, &o)), 3 => Step::new(nat(r.ps(&["cst", "ast", "tokenize"]), &b, &o, 0)), _ => Step::new(parse_bytes("ConcreteParseBytes", &b, &o)) };
                    match r.n(4) { 0 => { gen::malform(r, &mut st); } 1 => st.lf = vec![(1 + r.n(24) as u64, if r.p(1, 2) { LFault::Dead } else { LFault::Transient(*r.pick(&[2, 4, 11, 21])) })], 2 => { if r.p(1, 2) { st.abort = Abort::Tick(1 + r.log(20_000)) } else if let Kind::Lib { args: V::Fun(_, a), .. } = &mut st.kind { let i = r.n(a.len()); a[i] = list(vec![V::Int(1)]) } } _ => {} }
                    s.steps.push(st)
                }
                let b = gen::sensitive(r);
                let o = gen::opts(r);
                let k = match r.n(5) { 0 => leaf(&b, r.n(3) as i64, &o), 1 => parse_bytes("TokenizeBytes", &b, &o), 2 => nat(r.ps(&["cst", "ast", "tokenize"]), &b, &o, 0), _ => parse_bytes("ConcreteParseBytes", &b, &o) };
                s.steps.push(Step::new(k));
                return s
            }
            if r.p(1, 5) {
                // one request again and again, each time with another text of the same length: whatever
                // the code keeps under the place, the size or a part of the text is found again
                let mut st = if r.p(1, 4) { Step::new(gen::native_step(r, max)) } else { gen::request(r, max) };
                if r.p(1, 2) { let mut b = gen::source(r, 60); b.truncate(80); for _ in 0..r.r(1, 4) { let i = r.n(b.len() + 1); b.insert(i, b'\n') } let i = r.n(b.len() + 1); b.insert(i.min(6), *r.pick(b"\"([{(")); set_payload(&mut st, b) }
                let Some(b) = payload(&st).map(|b| b.to_vec()) else { return s };
                s.steps.clear();
                for _ in 0..r.r(2, 6) { let mut t = st.clone(); let b = gen::twin(r, &b); set_payload(&mut t, b); s.steps.push(t); if r.p(1, 6) { s.steps.push(gen::faulty(r, 20)) } }
                let b = gen::twin(r, &b); set_payload(&mut st, b); s.steps.push(st);
            }
        }
        "C02" => {
            let n = if r.p(1, 20) { r.r(5, 8) } else { r.r(2, 4) };
            for t in 0..n { for _ in 0..r.r(1, if n > 4 { 1 } else { 3 }) { let mut st = Step::new(gen::native_step(r, 60)); st.thread = t as u8; s.steps.push(st) } }
            if r.p(1, 3) { // same input, different quirks: the sharpest pair
                let b = gen::quirky(r);
                for st in &mut s.steps { if let Kind::Nat { bytes, opts, api, .. } = &mut st.kind { *bytes = b.clone(); opts.quirks = [r.p(1, 2), r.p(1, 2), r.p(1, 2)]; *api = r.ps(&["cst", "ast", "ast", "tokenize"]).to_string() } }
            }
            else if r.p(1, 2) { // everyone in the same part of the code
                let f = r.n(9);
                for st in &mut s.steps { let b = gen::hot(r, f); set_payload(st, b) }
            }
            let k = r.r(1, if thorough { 60 } else { 30 });
            let switches = match r.n(3) {
                0 => (0..k).map(|_| (1 + r.log(3000), r.n(n) as u8)).collect(), // few, far apart
                1 => (0..k * 4).map(|_| (1 + r.log(60), r.n(n) as u8)).collect(), // dense
                _ => (0..k).map(|i| (if i == 0 { 1 + r.log(20_000) } else { 1 + r.log(200) }, r.n(n) as u8)).collect(), // a burst at one point
            };
            s.conc = Some(Conc { n, slice: *r.pick(&[5, 17, 50, 500, 5000, 1 << 40]), switches, first: r.n(n) });
        }
        "C03" => {
            let b = loop { let t = if thorough { 16_000 } else { 5000 }; let b = long_input(r, t); if b.starts_with(b"\"") { continue } break if b.starts_with(b"\n\n") || b.starts_with(b"  ") { let mut b = b; b.truncate(1200); b } else { b } };
            let mut o = gen::opts(r);
            if b.starts_with(b"#!") { o.first = 1 + r.n(2) as i64 }
            let k = match r.n(5) { 0 => parse_bytes("TokenizeBytes", &b, &o), 1 => { let mut st = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), "/simfs/f.wl", &o)); st.files.push(gen::file(r, "/simfs/f.wl", b.clone())); s.steps.push(st); create() } _ => parse_bytes("ConcreteParseBytes", &b, &o) };
            if s.steps.is_empty() { s.steps.push(Step::new(k)) }
            s.knob = vec![r.n(1000) as u64]; // where in the request the abort comes, in thousandths
        }
        "C04" => {
            let b = if r.p(1, 3) { long_input(r, 600) } else { let mut b = gen::source(r, max); if r.p(1, 8) { gen::damage(r, &mut b); } b };
            let o = gen::opts(r);
            let mut st = match r.n(8) {
                0 => Step::new(parse_bytes("TokenizeBytes", &b, &o)),
                1 => { let mut st = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), "/simfs/f.wl", &o)); st.files.push(gen::file(r, "/simfs/f.wl", b)); st }
                2 => { let mut x = gen::request(r, max); set_payload(&mut x, b); x }
                3 => abs_or_rt(r, max),
                _ => Step::new(parse_bytes("ConcreteParseBytes", &b, &o)),
            };
            st.abort = match r.n(4) { 0 => Abort::Poll(1 + r.log(400)), 1 => Abort::Tick(0), _ => Abort::Tick(1 + r.log(400_000)) };
            s.knob = vec![r.n(1001) as u64, r.n(2) as u64];
            s.steps.push(st);
            for _ in 0..r.r(1, 2) { let x = if r.p(1, 5) { abs_or_rt(r, max) } else { gen::request(r, max) }; s.steps.push(x) }
        }
        "C22" => {
            let n = *r.pick(&[80, 150, 300, 300, 1000, 2000]);
            let n = if thorough && r.p(1, 2) { n * 3 } else { n };
            let n = r.r(n / 2, n);
            let b = if r.p(1, 8) { long_input(r, n) } else { gen::repeated(r, n) };
            let o = gen::opts(r);
            let mut st = match r.n(10) {
                0 => Step::new(parse_bytes("TokenizeBytes", &b, &o)),
                1 => { let p = gen::path(r); let mut st = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), &p, &o)); st.files.push(gen::file(r, &p, b)); st }
                2 => Step::new(leaf(&b, r.n(3) as i64, &o)),
                3 => Step::new(safe_string(&b)),
                4 | 5 | 7 => { let mut st = Step::new(nat(if r.p(3, 4) { "agg" } else { "cst" }, &b, &o, 0)); st.files.push(crate::seam::SimFile { path: "resolve".into(), ..Default::default() }); st }
                6 => { let api = *r.pick(&gen::APIS); Step::new(nat(api, &b, &o, r.n(3) as i64)) }
                _ => Step::new(parse_bytes("ConcreteParseBytes", &b, &o)),
            };
            if r.p(1, 3) {
                // what goes wrong on the way, and a request after it
                match r.n(3) {
                    0 => st.abort = if r.p(1, 2) { Abort::Poll(1 + r.log(4000)) } else { Abort::Tick(1 + r.log(4_000_000)) },
                    1 => st.lf = vec![(1 + r.log(4000), if r.p(1, 2) { LFault::Dead } else { LFault::Transient(*r.pick(&[2, 4, 11, 21])) })],
                    _ => if let Some(f) = st.files.first_mut() { if f.path != "resolve" { let hard = r.p(1, 3); f.reads = gen::read_faults(r, f.content.len(), hard) } }
                }
                s.steps.push(st);
                let x = gen::request(r, 60); s.steps.push(x)
            } else { s.steps.push(st) }
        }
        "C05" => {
            let st = if r.p(1, 5) { abs_or_rt(r, 60) } else { { let m = *r.pick(&[8, 8, 30, 30, 100, 100, 400]); gen::request(r, m) } };
            let mut st = st;
            if r.p(1, 2) && payload(&st).is_some() { let b = gen::tiny(r); set_payload(&mut st, b) }
            s.steps.push(st);
            s.knob = vec![r.u() >> 8, r.n(2) as u64, *r.pick(&[2, 3, 4, 5, 7, 11, 21, 22])];
            let x = gen::request(r, 60); s.steps.push(x);
        }
        "C06" => {
            let mut st = if r.p(1, 8) { abs_or_rt(r, 60) } else { gen::request(r, 60) };
            s.knob = vec![(st.files.iter().all(|f| f.path != "resolve") && r.p(1, 4)) as u64];
            if s.knob[0] == 0 { gen::malform(r, &mut st); }
            s.steps.push(st);
            let x = gen::request(r, 60); s.steps.push(x);
        }
        "C07" => {
            for _ in 0..r.r(1, 4) {
                let mut st = if r.p(3, 4) {
                    let p = gen::path(r);
                    let o = gen::opts(r);
                    let mut b = b"canaryQq7".to_vec(); b.extend(gen::source(r, 60));
                    let mut st = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), &p, &o));
                    if r.p(5, 6) { st.files.push(gen::file(r, &p, b)) }
                    if r.p(1, 3) { st.files.push(gen::file(r, "/simfs/other.wl", b"decoyZz9".to_vec())) }
                    st.deny = r.p(1, 2);
                    if r.p(1, 6) { if let Some(f) = st.files.first_mut() { f.open_err = vec![*r.pick(&[2, 13, 24, 4])] } }
                    if r.p(1, 8) { gen::malform(r, &mut st); }
                    st
                } else { let mut st = gen::request(r, 60); if r.p(1, 2) { st.deny = true } st };
                if r.p(1, 8) { st.lf = vec![(1 + r.log(40), LFault::Dead)] }
                if r.p(1, 8) { st.abort = Abort::Poll(1) }
                st.thread = r.n(2) as u8;
                s.steps.push(st)
            }
        }
        "C08" => {
            for _ in 0..r.r(1, 3) {
                let p = gen::path(r);
                let mut o = gen::opts(r); o.enc = 0;
                let mut b = if r.p(1, 5) { long_input(r, if thorough { 20_000 } else { 5000 }) } else { gen::source(r, if thorough { 3000 } else { 800 }) };
                if r.p(1, 15) { b = big(r, b) }
                if r.p(1, 6) && b.len() <= 100_000 { gen::damage(r, &mut b); }
                if r.p(1, 12) { b.clear() }
                let n = b.len();
                let mut st = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), &p, &o));
                let mut f = gen::file(r, &p, b);
                match r.n(8) {
                    0 => f.open_err = vec![*r.pick(&[2, 13, 24, 23, 40, 20])],
                    1 => f.open_err = vec![4, 4],
                    2 => f.size_lie = Some(*r.pick(&[0, 1, n as u64 / 2, n as u64 + 1, 1 << 20, 4096])),
                    3 => f.stat_err = *r.pick(&[5, 13, 75]),
                    4 => f.dir = r.p(1, 2),
                    _ => {}
                }
                if r.p(2, 3) { let hard = r.p(1, 3); f.reads = gen::read_faults(r, n, hard) }
                if r.p(1, 10) { f.size_lie = Some(r.log(1 << 16)) }
                st.files.push(f);
                s.steps.push(st)
            }
        }
        "C09" => {
            let mut b = match r.n(40) { 0 => { let b = gen::source(r, 100); big(r, b) } 1 | 2 => long_input(r, 2000), 3..=9 => { let f = r.n(9); gen::hot(r, f) } _ => gen::source(r, if thorough { 600 } else { 250 }) };
            let k = *r.pick(&[0, 0, 1, 1, 1, 2]);
            // (a comment of megabytes that loses its opener becomes as many symbols)
            let k = if b.len() > 100_000 { 0 } else { k };
            for _ in 0..k { gen::damage(r, &mut b); }
            let mut o = gen::opts(r); o.enc = 0;
            if r.p(3, 4) { o.first = 0 } else if r.p(2, 3) { let h = r.ps(&["#!/usr/bin/env wolframscript\n", "#!x\r\n", "#!", "#", "#1&", "# !", "#\n!", "#\\\n!a b\n", "#!\n", "#a+", "##"]); b.splice(0..0, h.bytes()); }
            match r.n(8) {
                0..=2 => s.steps.push(Step::new(nat("cst", &b, &o, 0))),
                3 | 4 => s.steps.push(Step::new(nat("tokenize", &b, &o, 0))),
                5 => s.steps.push(Step::new(parse_bytes("ConcreteParseBytes", &b, &o))),
                6 => s.steps.push(Step::new(parse_bytes("TokenizeBytes", &b, &o))),
                _ => { let mut st = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), "/simfs/d.wl", &o)); st.files.push(gen::file(r, "/simfs/d.wl", b)); s.steps.push(st) }
            }
        }
        "C10" => {
            s.mem = true;
            let many = r.p(1, 80);
            let n = if many { r.r(260, 1300) } else if r.p(1, 15) { r.r(30, 150) } else { r.r(2, 7) };
            for _ in 0..n {
                let h = handle(r);
                // (with many: hardly anything but sessions made and mostly not given back)
                let mut st = match if many { *r.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 3]) } else { r.n(5) } {
                    0 => Step::new(create()),
                    1 | 2 => Step::new(destroy(h)),
                    _ => { let mut st = gen::request(r, if n > 10 { 10 } else { 60 }); if let Kind::Lib { func, args: V::Fun(_, a) } = &mut st.kind { if !a.is_empty() && func != "TokenIsEmpty" { a[0] = V::Int(h) } } st }
                };
                // a handle this library gave out: live, or long since destroyed
                if r.p(1, 2) { if let Kind::Lib { func, args: V::Fun(_, a) } = &mut st.kind { if !a.is_empty() && func != "TokenIsEmpty" { a[0] = sym(&format!("cpsim`handle`{}", r.n(4))) } } }
                st.thread = r.n(2) as u8;
                s.steps.push(st)
            }
            if r.p(1, 2) { let h = handle(r); s.steps.push(Step::new(destroy(h))); s.steps.push(Step::new(destroy(h))) }
        }
        "C11" => {
            s.mem = true;
            let n = r.r(1, 4);
            for _ in 0..n {
                let st = match r.n(8) { 0..=3 => gen::faulty(r, 60), 4 => Step::new(gen::native_step(r, 60)), 5 => abs_or_rt(r, 60), _ => gen::request(r, 60) };
                s.steps.push(st)
            }
            if r.p(1, 4) { let p = gen::path(r); let o = gen::opts(r); let b = gen::source(r, 60); let mut st = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), &p, &o)); let mut f = gen::file(r, &p, b); let hard = r.p(2, 3); f.reads = gen::read_faults(r, 60, hard); if r.p(1, 4) { f.dir = true } st.files.push(f); s.steps.push(st) }
            s.knob = vec![*r.pick(&[12, 24]), r.n(2) as u64];
        }
        "C12" => crate::cli::generate(r, &mut s, thorough),
        "C13" => {
            for _ in 0..r.r(1, 3) { let mut st = match r.n(4) { 0 => Step::new(gen::native_step(r, max)), 1 => abs_or_rt(r, max), _ => gen::request(r, max) }; if r.p(1, 3) { let f = r.n(9); let mut b = gen::hot(r, f); for _ in 0..r.n(4) { b.extend(gen::hot(r, f)) } set_payload(&mut st, b) } s.steps.push(st) }
            s.shift = r.n(5000);
            for _ in 0..r.n(4) { s.env.push((r.ps(&["LANG", "LC_ALL", "TZ", "HOME", "USER", "TMPDIR", "COLUMNS", "RUST_LOG", "FOO", "PATH", "DEBUG", "TAB_WIDTH", "NO_COLOR", "TERM"]).to_string(), r.ps(&["", "1", "C", "de_DE.UTF-8", "/nonexistent", "Asia/Tokyo", "tr_TR"]).to_string())) }
            // and any other variable the code may ask for, the process number included
            if r.p(2, 3) { s.env.push(("cpsim:any".into(), (1 + (r.u() >> 8)).to_string())) }
        }
        "C14" => {
            let mut b = match r.n(40) { 0 | 1 => vec![], 2 => { let b = gen::source(r, 100); big(r, b) } 3 | 4 => long_input(r, 2000), 5..=9 => { let f = r.n(9); gen::hot(r, f) } _ => gen::source(r, max) };
            if r.p(1, 10) && b.len() <= 100_000 { gen::damage(r, &mut b); }
            let mut o = gen::opts(r); o.first = 0;
            let st = nat("cst", &b, &o, 0);
            s.steps.push(Step::new(st));
            s.knob = vec![r.n(1 << 30) as u64];
            for _ in 0..r.n(3) { let x = if r.p(1, 3) { gen::faulty(r, 60) } else { gen::request(r, 60) }; s.steps.push(x) }
        }
        "C15" => {
            let mut b = match r.n(40) { 0 => { let b = gen::source(r, 100); big(r, b) } 1 | 2 => long_input(r, 2000), 3..=7 => { let f = r.n(9); gen::hot(r, f) } 8..=15 => gen::quirky(r), _ => gen::source(r, max) };
            if r.p(1, 10) && b.len() <= 100_000 { gen::damage(r, &mut b); }
            let o = gen::opts(r);
            let m = r.n(3) as i64;
            let k = match r.n(10) { 0..=3 => nat("cst", &b, &o, 0), 4 | 5 => nat("tokenize", &b, &o, 0), 6 => nat("leaf", &b, &o, m), 7 => if r.p(1, 4) { is_empty(r.ps(&gen::TOKS)) } else { nat("safe", &b, &o, 0) }, 8 if r.p(1, 3) => { b.truncate(60); nat("absbox", &b, &o, r.n(1 << 30) as i64) } _ => nat("abs", &b, &o, 0) };
            s.steps.push(Step::new(k));
            s.knob = vec![r.n(6) as u64];
        }
        _ => exec::harness_error("no such check"),
    }
    for st in &mut s.steps { if let Some(b) = payload(st).filter(|b| b.len() > 2000).and_then(tame) { set_payload(st, b) } }
    if !["C02", "C12"].contains(&id) { for st in &mut s.steps { gen::vary_quirks(r, st) } }
    s
}
fn handle(r: &mut Rng) -> i64 { if r.p(1, 6) { return *r.pick(&[0xdead, 0xdeadbeef, 0xbad, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7ff, 0x800, 4095, 4096, 65_535, 65_536, 1 << 47, (1 << 47) - 1, 1 << 48, 1 << 62, (1 << 62) - 1, i64::MAX - 1, i64::MAX - 7, 42, 1234, 12_345, 99, 100]) }
    match r.n(8) { 0 => 0, 1 => 1, 2 => r.n(64) as i64, 3 => (0x7f00_0000_0000u64 + (r.u() & 0xff_ffff_fff0)) as i64, 4 => (r.u() >> 1) as i64, 5 => 0x5555_5555_0000 + (r.n(1 << 20) as i64) * 16, 6 => i64::MAX, _ => 8 * r.r(1, 100000) as i64 } }
/// An Abstract or RoundTripTest request over nodes the parser really produces.
fn abs_or_rt(r: &mut Rng, max: usize) -> Step {
    let b = if r.p(1, 3) { gen::quirky(r) } else { gen::source(r, max) };
    let o = gen::opts(r);
    let mut st = Step::new(nat(if r.p(1, 2) { "agg" } else { "cst" }, &b, &o, 0));
    // resolved to the real request by `resolve` (the nodes come from the parser)
    st.files.push(crate::seam::SimFile { path: "resolve".into(), ..Default::default() });
    st
}
/// Replace deferred requests by the real ones.
pub fn resolve(s: &mut Scn, cx: &mut Ctx) {
    for i in 0..s.steps.len() {
        if s.steps[i].files.iter().any(|f| f.path == "resolve" || f.path == "resolve-broken") {
            let broken = s.steps[i].files.iter().any(|f| f.path == "resolve-broken");
            let mut st = s.steps[i].clone();
            st.files.clear();
            let mut q = st.clone(); q.abort = Abort::No; q.lf.clear();
            let (x, _) = cx.fresh(&q);
            let Kind::Nat { api, opts, mode, .. } = &st.kind else { continue };
            let mode = *mode as u64;
            let mut k = match x.exprs.first() {
                None => roundtrip(fun("Failure", vec![st_("x"), fun("Association", vec![])])),
                Some(v) if api == "agg" => {
                    let a = v.args();
                    if a.is_empty() { create() } else {
                        let h = hash(format!("{}{}", s.seed, i).as_bytes()) as usize;
                        abstract_(a[(h >> 8) % a.len()].clone(), &opts.quirks, TEXT_KINDS[h % 4])
                    }
                }
                Some(v) => roundtrip(container("String", v.args()[0].clone(), Some(v), opts.conv)),
            };
            if broken {
                let mut r = Rng::new(mode, 5);
                if let Kind::Lib { func, args: V::Fun(_, a) } = &mut k {
                    if let Some(x) = a.first_mut() { for _ in 0..r.r(1, 2) { gen::spoil(&mut r, x) } }
                    if func == "Abstract" && r.p(1, 2) { a[2] = sym(r.ps(&["Cell", "Box", "Cell", "Byte", "File"])) }
                }
            }
            st.kind = k;
            gen::vary_quirks(&mut Rng::new(s.seed, 9 + i as u64), &mut st);
            if hash(format!("full{}{}", s.seed, i).as_bytes()) % 4 == 0 { full_args(&mut st.kind) }
            s.steps[i] = st;
        }
    }
}
fn st_(s: &str) -> V { st(s) }
/// Container kinds whose nodes carry text positions (Box and Cell carry box positions).
const TEXT_KINDS: [&str; 4] = ["String", "File", "Byte", "Hold"];
pub fn container(kind: &str, nodes: V, reply: Option<&V>, _conv: i64) -> V {
    let mut m = vec![];
    if let Some(rep) = reply {
        let a = rep.args();
        if a.len() == 6 {
            m.push(fun("Rule", vec![sym("CodeParser`SyntaxIssues"), a[1].clone()]));
            for (i, k) in ["SimpleLineContinuations", "ComplexLineContinuations", "EmbeddedNewlines", "EmbeddedTabs"].iter().enumerate() { m.push(fun("Rule", vec![st(k), a[2 + i].clone()])) }
        }
    }
    V::Fun(Box::new(sym("CodeParser`ContainerNode")), vec![sym(kind), nodes, fun("Association", m)])
}
pub fn payload(st: &Step) -> Option<&[u8]> {
    match &st.kind {
        Kind::Nat { bytes, .. } => Some(bytes),
        Kind::Lib { args, .. } => args.args().iter().find_map(|a| if a.is_fun("ByteArray") { match a.args().first() { Some(V::Bytes(b)) => Some(&b[..]), _ => None } } else { None }).or_else(|| st.files.first().map(|f| &f.content[..])),
    }
}
pub fn set_payload(st: &mut Step, b: Vec<u8>) {
    match &mut st.kind {
        Kind::Nat { bytes, api, .. } => { if api.ends_with("_str") && std::str::from_utf8(&b).is_err() { return } *bytes = b }
        Kind::Lib { args: V::Fun(_, a), .. } => {
            for x in a.iter_mut() { if x.is_fun("ByteArray") && x.args().len() == 1 { *x = bytearray(&b); return } }
            if let Some(f) = st.files.first_mut() { f.content = b }
        }
        _ => {}
    }
}
/// Long inputs made of many small elements, in every shape the parser loops over.
fn long_input(r: &mut Rng, target: usize) -> Vec<u8> {
    let shapes: [(&str, &str, &str); 86] = [
        ("", "\"a\n\"+", "b"), ("", "\"\t\" ", ""), ("", "a\\\n+", "b"), ("", "\"x\\\ny\",", ""), ("", "(*\t\n*)a+", "b"),
        ("a", "'", ""), ("a", "!", ""), ("a", " &", ""), ("a", "..", ""), ("a", "++", ""), ("", "{", ""), ("", "(", ""), ("", "- ", "a"), ("", "!", "a"), ("", "f[", ""), ("", "<<a\n", ""), ("", "a>>b;", ""), ("", "##;", ""), ("", "{a}", ""), ("", "a.b.", "c"), ("", "a**", "b"), ("", "a|", "b"), ("", "a/;", "b"), ("", "a/@", "b"),
        ("", "a:=", "b"), ("", "a:>", "b"), ("", "_ ", ""), ("", "a_:1,", ""), ("", "[", ""), ("", ")", ""), ("", ",", ""), ("", ";", ""), ("", "@", ""), ("", "&", ""), ("", "\\[Integral]a ", ""), ("", "a|->", "b"), ("", "a'", ""), ("f", "[", "]"), ("", "a \\\n", ""),
        ("", "a+", "b"), ("", "a*", "b"), ("", "a b ", "c"), ("", "f[x,y];\n", ""), ("{", "a, ", "b}"), ("f[", "x,", "y]"), ("f[", "x,", "y"), ("", "a;", "b"), ("", "a<b>=", "c"), ("", "a->", "b"), ("", "x=", "1"),
        ("", "a[b]", ""), ("f", "[x]", ""), ("f", "[[x]]", ""), ("", "\n", ""), ("", " ", "a"), ("", "(* c *)", "a"), ("", "\"s\" ", ""), ("", "a//", "b"), ("", "a@", "b"), ("", "a;;", "b"), ("", "a::b::", "c"), ("", "a~f~", "b"), ("", "a^", "b"), ("", "a&&", "b"), ("", "a||", "b"),
        ("(", "a+b;", "c)"), ("(", "a+b;\n", "c"), ("<|", "a->1,", "b->2|>"), ("", "a_b ", ""), ("", "#1&;", ""), ("#!x", " a b", "\nz"), ("#! ", "a+", "b\nf[x]"), ("", "a===", "b"), ("", "a<>", "b"), ("", "\\[Alpha] ", ""), ("", "\\[Alpha]+", "b"), ("", "a,", "b"), ("", "a:", "b"), ("", "a/:b=", "c"), ("", "\\(a\\)", ""), ("", "a?b\n", ""), ("\"", "abc\n", "\""), ("", "%%+", "a"), ("", "1.5 ", ""), ("{", "{a,b},", "c}"), ("", "a=!=", "b")];
    let (p, m, e) = *r.pick(&shapes);
    let n = target / m.len().max(2);
    let n = if m.contains(&['@', '^', '=', '>', '~', '\'', '!', '{', '(', '[', '-', '.', '&', ';', '/', '?'][..]) && !m.contains(&['}', ')', ']', '\n'][..]) || p == "f" || p == "a" { n.min(500) } else { n };
    let mut v = String::from(p);
    let alt = if r.p(1, 3) { *r.pick(&["(x+y)", "a", "1", "\"s\"", "(* c *)a"]) } else { "" };
    for i in 0..r.r(n / 2, n) { v.push_str(m); if !alt.is_empty() && i % 50 == 49 { v.push_str(alt); if m.len() > 1 { v.push_str(m) } } }
    v.push_str(e);
    v.into_bytes()
}

/// Text of tens of kilobytes around `b`, beyond any buffer the code may use.
pub fn big(r: &mut Rng, b: Vec<u8>) -> Vec<u8> {
    let n = *r.pick(&[300usize, 4090, 8190, 9000, 33_000, 65_530, 66_000, 70_000]);
    let (p, m, e) = *r.pick(&[("(* é ", "comment text ", "*)"), ("(*\n", "comment line\n", "*)"), ("\"", "string text ", "\""), ("\"", "line\n", "\""), ("", " ", ""), ("", "x", ""), ("", "1", ""), ("\"", "日本", "\""), ("", "\n", ""), ("(*", "\t", "*)")]);
    // (every non-ASCII character in a string is an issue, every blank a token: their number costs quadratic time)
    let n = if m == "日本" { n.min(2500) } else if m == " " || m == "\n" { n.min(2000) } else { n };
    // (a long name left open swallows what follows, and is then compared with every known name)
    let p = if p.is_empty() && n > 1000 { " " } else { p };
    let n = if r.p(1, 12) && (p.starts_with("(* ") || p == "\"" && m == "string text ") { *r.pick(&[131_072, 262_144, 1 << 20, 1 << 20, 1_100_000, 2 << 20]) } else { n };
    let b = if n > 100_000 { r.ps(&["a+b;\n", "f[x,é]\n", "{1,2}\r\n", "\t\"s\" ", ""]).as_bytes().to_vec() } else if b.len() > 400 { gen::source(r, 200) } else { b };
    let mut v = b.clone();
    v.extend(p.bytes());
    while v.len() < n { v.extend(m.bytes()) }
    if r.p(9, 10) { v.extend(e.bytes()) }
    v.extend(b);
    if n > 100_000 { if r.p(1, 2) { gen::exactly(r, &mut v, n) } }
    else if r.p(1, 3) { let n = *r.pick(&[512, 1024, 2048, 4096, 8192, 8192, 16_384, 32_768, 65_536, 65_536]); gen::exactly(r, &mut v, n) }
    v
}
/// A long name that damage left open must not run over kilobytes: each look at it compares it with
/// every known name, which takes minutes.
fn tame(b: &[u8]) -> Option<Vec<u8>> {
    let mut v = None;
    for i in 0..b.len().saturating_sub(300) {
        if b[i..].starts_with(b"\\[") && b[i + 2..i + 300].iter().all(|c| c.is_ascii_alphanumeric()) { v.get_or_insert_with(|| b.to_vec())[i + 20] = b' ' }
    }
    v
}
pub fn judge(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut v = match s.check.as_str() {
        "C01" => c01(s, cx), "C02" => c02(s, cx), "C03" => c03(s, cx), "C04" => c04(s, cx), "C05" => c05(s, cx), "C06" => c06(s, cx), "C07" => c07(s, cx), "C08" => c08(s, cx),
        "C09" => c09(s, cx), "C10" => c10(s, cx), "C11" => c11(s, cx), "C12" => crate::cli::judge(s, cx), "C13" => c13(s, cx), "C14" => c14(s, cx), "C15" => c15(s, cx),
        "C22" => c22(s, cx),
        _ => exec::harness_error("no such check"),
    };
    if v.key == 0 { v.key = 1 }
    v
}
pub fn vd(viol: Option<Viol>, nontrivial: bool, key: u64) -> Verdict { Verdict { viol, nontrivial, key } }
pub fn scn_key(s: &Scn) -> u64 { let mut t = s.clone(); t.seed = 0; t.rand = 0; t.clock = 0; hash(t.to_text().as_bytes()) }

// ---- C01
fn c01(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut s = s.clone();
    resolve(&mut s, cx);
    let r = exec::run(&s);
    cx.note(&s, &r);
    let mut v = end_viol(&r, s.steps.len(), &s);
    let mut clean = 0;
    if v.is_none() {
        for (i, (st, x)) in s.steps.iter().zip(&r.steps).enumerate() {
            if st.abort != Abort::No || !st.lf.is_empty() || st.files.iter().any(|f| !f.reads.is_empty() || f.open_err.iter().any(|e| *e != 0)) { continue }
            let (b, e) = cx.fresh(st);
            if e != End::Ok { v = bad("crash", format!("{e:?} serving step {i} ({}) alone", what(st))); break }
            if i > 0 { clean += 1 }
            let (p, q) = (seen(st, x), seen(st, &b));
            if p != q { v = bad("history", format!("step {i} ({}) is answered differently after {i} earlier request(s) than by a fresh library: {}", what(st), differ(&p, &q))); break }
        }
    }
    vd(v, clean > 0, scn_key(&s))
}
// ---- C02
fn c02(s: &Scn, cx: &mut Ctx) -> Verdict {
    let r = exec::run(s);
    cx.note(s, &r);
    let mut v = end_viol(&r, s.steps.len(), s);
    if v.is_none() {
        for (i, (st, x)) in s.steps.iter().zip(&r.steps).enumerate() {
            let (b, e) = cx.fresh(st);
            if e != End::Ok { v = bad("crash", format!("{e:?} in step {i} alone")); break }
            if x.native != b.native { v = bad("interference", format!("thread {} step {i} ({}): concurrent result differs from the result alone: {} vs {}", st.thread, what(st), cutd(&x.native, &b.native), cutd(&b.native, &x.native))); break }
        }
    }
    let mut k = format!("{:?}", r.taken).into_bytes(); k.extend(scn_key(s).to_le_bytes());
    vd(v, !r.taken.is_empty(), hash(&k))
}
fn cutd(a: &str, b: &str) -> String { let p = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count(); let lo = p.saturating_sub(60); a.bytes().skip(lo).take(160).map(|x| if (32..127).contains(&x) { x as char } else { '.' }).collect() }
// ---- C03
fn c03(s: &Scn, cx: &mut Ctx) -> Verdict {
    let (full, e) = cx.fresh(&s.steps[0].without_faults());
    if e != End::Ok { return vd(bad("crash", format!("{e:?} without any fault")), false, 0) }
    let total = full.own_ticks;
    let mut t = s.clone();
    let at = total * s.knob.first().copied().unwrap_or(500) / 1000;
    t.steps[0].abort = Abort::Tick(at);
    let r = exec::run(&t);
    cx.note(&t, &r);
    if let Some(v) = end_viol(&r, 1, &t) { return vd(Some(v), true, 0) }
    let x = &r.steps[0];
    let after = x.t1.saturating_sub(x.aborted_at.max(x.t0));
    let bound = C03_BASE + at * 45 / 100;
    if std::env::var("CPSIM_CAL").is_ok() { let b = payload(&s.steps[0]).unwrap(); println!("CAL {} at {} total {} after {} ratio {:.3} base {} {:?}", what(&s.steps[0]), at, total, after, after as f64 / at.max(1) as f64, after as i64 - (at * 45 / 100) as i64, String::from_utf8_lossy(&b[..b.len().min(20)])) }
    let v = if x.aborted_at > 0 && after > bound {
        bad("slow-abort", format!("{}: abort raised after {at} of {total} steps, but the request went on for {after} more (allowed {bound})", what(&s.steps[0])))
    } else { None };
    vd(v, x.aborted_at > 0 && total - at > bound, scn_key(&t))
}
const C03_BASE: u64 = 8_000;
// ---- C22
/// What a request may cost: work in basic blocks and heap in bytes, for n bytes of source.
fn allowance(n: u64) -> (u64, u64) { (120 * n * n + 60_000 * n + 1_000_000, 200 * n * n + 50_000 * n + 4_000_000) }
fn c22(s: &Scn, cx: &mut Ctx) -> Verdict {
    let ns: Vec<u64> = s.steps.iter().map(|st| payload(st).map_or(0, |b| b.len()).max(st.files.iter().map(|f| f.content.len()).max().unwrap_or(0)) as u64).collect();
    let mut s = s.clone();
    resolve(&mut s, cx);
    s.knob = vec![7777, ns.iter().map(|n| allowance(*n).0).sum()];
    let r = exec::run(&s);
    cx.note(&s, &r);
    let mut v = end_viol(&r, s.steps.len(), &s);
    if v.is_none() {
        for (i, (x, n)) in r.steps.iter().zip(&ns).enumerate() {
            if std::env::var("CPSIM_CAL").is_ok() { println!("CAL {} n {n} ticks {} /n {} /n2 {} peak {} /n {} /n2 {} seed {}", what(&s.steps[i]), x.own_ticks, x.own_ticks / (n + 1), x.own_ticks / (n * n + 1), x.peak, x.peak / (n + 1), x.peak / (n * n + 1), s.seed) }
            let (w, m) = allowance(*n);
            if x.own_ticks > w { v = bad("work", format!("{} of {n} bytes took {} steps (allowed {w})", what(&s.steps[i]), x.own_ticks)) }
            else if x.peak > m { v = bad("memory", format!("{} of {n} bytes took {} bytes of heap (allowed {m})", what(&s.steps[i]), x.peak)) }
        }
    }
    vd(v, r.steps.first().map_or(true, |x| x.own_ticks > 2000), scn_key(&s))
}
// ---- C04
fn c04(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut s = s.clone();
    resolve(&mut s, cx);
    let (full, e) = cx.fresh(&s.steps[0].without_faults());
    if e != End::Ok { return vd(bad("crash", format!("{e:?} without any fault")), false, 0) }
    let f = seen(&s.steps[0], &full);
    // place the abort inside the request, wherever it was drawn
    if s.knob.get(1) == Some(&1) { s.steps[0].abort = Abort::Tick(full.own_ticks * s.knob[0] / 1000) }
    let r = exec::run(&s);
    cx.note(&s, &r);
    let mut v = end_viol(&r, s.steps.len(), &s);
    let mut nontrivial = false;
    if v.is_none() {
        let x = &r.steps[0];
        let g = seen(&s.steps[0], x);
        nontrivial = x.seen_at > 0;
        v = match (&g, &f) {
            (Seen::One(a), _) if a.is_failure() && x.aborted_at > 0 => None,
            (Seen::One(a), Seen::One(b)) => untrue(&same_missing(a, b, &encoding_problems(payload(&s.steps[0]).unwrap_or_default())), b).and_then(|d| bad("untruthful", format!("{}: reply of the aborted request contains what the full reply does not: {d}", what(&s.steps[0])))),
            _ => bad("broken-reply", format!("{}: aborted request left {}", what(&s.steps[0]), show_seen(&g))),
        };
        for i in 1..s.steps.len() {
            if v.is_some() { break }
            let (b, _) = cx.fresh(&s.steps[i]);
            let (p, q) = (seen(&s.steps[i], &r.steps[i]), seen(&s.steps[i], &b));
            if p != q { v = bad("aftermath", format!("request {i} ({}) after an aborted one: {}", what(&s.steps[i]), differ(&p, &q))) }
        }
    }
    vd(v, nontrivial, scn_key(&s))
}
/// Of several encoding problems the last one read is reported: an aborted request may have read
/// only some of them. Any the input has is true.
fn same_missing(a: &V, b: &V, problems: &[&str]) -> V {
    fn reason(v: &V) -> Option<&str> { if v.is_fun("Missing") { v.args().first()?.as_str()?.strip_prefix("UnsafeCharacterEncoding_") } else { v.args().first().and_then(reason) } }
    fn put(v: &mut V, w: &str) { if v.is_fun("Missing") { if let V::Fun(_, a) = v { a[0] = st(&format!("UnsafeCharacterEncoding_{w}")) } } else if let V::Fun(_, a) = v { put(&mut a[0], w) } }
    let mut a = a.clone();
    if let (Some(x), Some(w)) = (reason(&a).map(|x| x.to_string()), reason(b)) { if problems.contains(&&x[..]) { put(&mut a, w) } }
    a
}
/// None if `a` is `b` cut short or with parts replaced by $Aborted.
fn untrue(a: &V, b: &V) -> Option<String> {
    if a == b || a.is_sym("$Aborted") { return None }
    let (x, y) = (a.args(), b.args());
    if a.is_fun("List") && b.is_fun("List") && x.len() == 6 && y.len() == 6 && x[2..].iter().all(|z| z.is_fun("List")) {
        // a parse reply: nodes, issues, four position lists
        let unsafe_full = y[0].args().first().map_or(false, |m| m.is_fun("Missing"));
        if let Some(d) = untrue(&x[0], &y[0]) { return Some(d) }
        // a reply with a fatal issue leaves the other issues out: what a cut reply found before is not in it
        let fatal = |v: &V| v.args().iter().any(|i| i.args().get(2) == Some(&V::Str("Fatal".into())));
        let hidden = fatal(&y[1]) && !fatal(&x[1]);
        if !unsafe_full { for i in 1..6 { if i == 1 && hidden { continue } for e in x[i].args() { if !e.is_sym("$Aborted") && !y[i].args().contains(e) { return Some(short(e)) } } } }
        return None;
    }
    match (a, b) {
        (V::Fun(h, x), V::Fun(g, y)) if h == g => {
            let l = h.is_sym("List");
            if l && x.iter().all(|e| e.is_sym("$Aborted")) { return None }
            if x.len() > y.len() || (!l && x.len() != y.len()) { return Some(format!("{} vs {}", short(a), short(b))) }
            x.iter().zip(y).find_map(|(u, w)| untrue(u, w))
        }
        _ => Some(format!("{} vs {}", short(a), short(b))),
    }
}
// ---- C05
fn c05(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut s = s.clone();
    resolve(&mut s, cx);
    let (full, e) = cx.fresh(&s.steps[0].without_faults());
    if e != End::Ok { return vd(bad("crash", format!("{e:?} without any fault")), false, 0) }
    let f = seen(&s.steps[0], &full);
    if s.steps[0].lf.is_empty() {
        let at = 1 + s.knob[0] % full.ops.max(1);
        s.steps[0].lf = vec![(at, if s.knob[1] == 0 { LFault::Dead } else { LFault::Transient(s.knob[2] as i32) })];
    }
    let r = exec::run(&s);
    cx.note(&s, &r);
    let mut v = end_viol(&r, s.steps.len(), &s);
    let mut nt = false;
    if v.is_none() {
        let x = &r.steps[0];
        nt = x.fired[0] + x.fired[1] > 0;
        let g = seen(&s.steps[0], x);
        v = match &g {
            Seen::Err(_) => None,
            Seen::One(a) if a.is_failure() => None,
            _ if g == f => None,
            _ => bad("wrong-reply", format!("{}: one link operation failed ({:?}) and the caller got return code 0 with {} instead of {}", what(&s.steps[0]), s.steps[0].lf, show_seen(&g), show_seen(&f))),
        };
        for i in 1..s.steps.len() {
            if v.is_some() { break }
            let (b, _) = cx.fresh(&s.steps[i]);
            let (p, q) = (seen(&s.steps[i], &r.steps[i]), seen(&s.steps[i], &b));
            if p != q { v = bad("aftermath", format!("request {i} ({}) after a link error: {}", what(&s.steps[i]), differ(&p, &q))) }
        }
    }
    vd(v, nt, scn_key(&s))
}
// ---- C06
fn c06(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut s = s.clone();
    let deferred = s.steps[0].files.iter().any(|f| f.path == "resolve");
    resolve(&mut s, cx);
    if deferred && s.knob.first() == Some(&0) { malform_nodes(&mut Rng::new(s.seed, 6), &mut s.steps[0]) }
    let s = &s;
    let r = exec::run(s);
    cx.note(s, &r);
    let mut v = end_viol(&r, s.steps.len(), s);
    if v.is_none() {
        let g = seen(&s.steps[0], &r.steps[0]);
        let valid = s.knob.first() == Some(&1);
        v = match &g {
            Seen::One(a) if a.is_failure() != valid => None,
            Seen::One(a) if valid => bad("refused", format!("well-formed {} refused: {}", what(&s.steps[0]), short(a))),
            Seen::One(a) => bad("accepted", format!("malformed {} answered: {}", what(&s.steps[0]), short(a))),
            _ => bad("broken-reply", format!("{} {}: {}", if valid { "well-formed" } else { "malformed" }, what(&s.steps[0]), show_seen(&g))),
        };
        cx.stat(if valid { "well_formed_requests" } else { "malformed_requests" }, 1);
        for i in 1..s.steps.len() {
            if v.is_some() { break }
            let (b, _) = cx.fresh(&s.steps[i]);
            let (p, q) = (seen(&s.steps[i], &r.steps[i]), seen(&s.steps[i], &b));
            if p != q { v = bad("aftermath", format!("request {i} ({}) after a malformed one: {}", what(&s.steps[i]), differ(&p, &q))) }
        }
    }
    vd(v, true, scn_key(s))
}
fn malform_nodes(r: &mut Rng, st: &mut Step) {
    let Kind::Lib { func, args } = &mut st.kind else { return };
    let V::Fun(h, a) = args else { return };
    if a.is_empty() { a.push(V::Int(1)); return }
    match r.n(6) {
        0 => { a.pop(); }
        1 => a.push(V::Int(1)),
        2 => **h = sym("Foo"),
        3 => a[0] = r.pick(&[V::Int(3), st_("x"), sym("Global`z"), list(vec![V::Int(1)]), fun("Foo", vec![V::Int(1)]), V::Fun(Box::new(sym("CodeParser`ContainerNode")), vec![sym("String")]), V::Fun(Box::new(sym("CodeParser`ContainerNode")), vec![sym("NoSuchKind"), list(vec![]), fun("Association", vec![])])]).clone(),
        4 if func == "Abstract" => a[2] = r.pick(&[sym("NoSuchKind"), V::Int(1), st_("String"), list(vec![])]).clone(),
        _ if func == "Abstract" => a[1] = r.pick(&[V::Int(1), list(vec![]), fun("Association", vec![V::Int(1)]), fun("Association", vec![fun("Rule", vec![st_("Bogus"), sym("True")])]), st_("x")]).clone(),
        _ => { a.clear() }
    }
}
// ---- C07
fn asked_path(st: &Step) -> Option<String> { match &st.kind { Kind::Lib { func, args } if func.ends_with("File") => args.args().get(1).and_then(|p| p.as_str()).map(|x| x.to_string()), _ => None } }
fn c07(s: &Scn, cx: &mut Ctx) -> Verdict {
    let r = exec::run(s);
    cx.note(s, &r);
    let mut v = end_viol(&r, s.steps.len(), s);
    let mut nt = false;
    for (i, (st, x)) in s.steps.iter().zip(&r.steps).enumerate() {
        if v.is_some() { break }
        let path = asked_path(st);
        let mut granted: Vec<String> = vec![];
        for e in &x.fslog {
            let (p, verb) = match e {
                FsEv::Validate(p, ok) => { nt = true; if *ok { granted.push(p.clone()) } continue }
                FsEv::Open(p, _) => (p, "opened"), FsEv::Read(p, _) => (p, "read"), FsEv::Stat(p) => (p, "examined"), FsEv::Close(p) => (p, "closed"), FsEv::WriteAttempt(p) => (p, "wrote"),
            };
            if path.is_none() { v = bad("unasked-access", format!("step {i} ({}) names no file but {verb} {p}", what(st))) }
            else if verb == "wrote" { v = bad("write", format!("step {i} ({}) tried to write {p}", what(st))) }
            else if !granted.contains(p) { v = bad("no-permission", format!("step {i} ({}) {verb} {p} without permission having been granted for it (granted: {granted:?}, refused: {})", what(st), st.deny)) }
            if v.is_some() { break }
        }
        if v.is_none() && !x.escapes.is_empty() { v = bad("unasked-access", format!("step {i} ({}) touched {:?}", what(st), x.escapes)) }
        if v.is_none() && st.deny && path.is_some() && st.lf.is_empty() {
            match seen(st, x) {
                Seen::One(a) if a.is_failure() => { let t = format!("{:?}", x.exprs); if t.contains("canaryQq7") { v = bad("content-leak", format!("step {i}: refused request's failure contains file content")) } }
                g => v = bad("not-refused", format!("step {i} ({}): permission refused but the reply is {}", what(st), show_seen(&g))),
            }
        }
        if v.is_none() && !st.deny && path.is_some() && st.lf.is_empty() && st.abort == Abort::No {
            // permission granted: the reply is that of the named file, no other
            if let Seen::One(a) = seen(st, x) { if !a.is_failure() && text(&a).contains("decoyZz9") { v = bad("wrong-file", format!("step {i}: reply contains another file's content")) } }
        }
    }
    vd(v, nt, scn_key(s))
}
// ---- C08
fn c08(s: &Scn, cx: &mut Ctx) -> Verdict {
    let r = exec::run(s);
    cx.note(s, &r);
    let mut v = end_viol(&r, s.steps.len(), s);
    let mut nt = false;
    for (i, (st, x)) in s.steps.iter().zip(&r.steps).enumerate() {
        if v.is_some() { break }
        if x.fsfired.iter().sum::<u64>() > 0 { nt = true }
        if x.fds_open > 0 { v = bad("handle-leak", format!("step {i}: {} file handle(s) left open", x.fds_open)); break }
        let Kind::Lib { func, args } = &st.kind else { continue };
        let opened = x.fslog.iter().any(|e| matches!(e, FsEv::Open(_, 0)));
        let hard_open = !opened;
        let hard_read = x.fsfired[2] > 0 || st.files[0].dir;
        let g = seen(st, x);
        let fail = matches!(&g, Seen::One(a) if a.is_failure());
        if hard_open || hard_read {
            nt = true;
            if !fail { v = bad("misreport", format!("step {i} ({func}): the file could not be read but the reply is {}", show_seen(&g))) }
        } else {
            let eof = st.files[0].reads.iter().any(|f| matches!(f, RFault::Eof)) && x.fsfired[3] > 0;
            let content = if eof { x.delivered.clone() } else { st.files[0].content.clone() };
            let V::Fun(_, a) = args else { continue };
            let mut a = a.clone();
            a[1] = bytearray(&content);
            let b = Step::new(Kind::Lib { func: func.replace("File", "Bytes"), args: list(a) });
            let (b0, _) = cx.fresh(&b);
            let q = seen(&b, &b0);
            let soft_fail = fail && st.files[0].stat_err != 0; // metadata unavailable: refusing is a legitimate answer
            if g != q && !soft_fail { v = bad("misreport", format!("step {i} ({func}): reply differs from that for the same bytes: {}", differ(&g, &q))) }
        }
    }
    vd(v, nt, scn_key(s))
}
// ---- C09
pub struct Pos { pub lc: Vec<(u32, u32)>, pub ci: Vec<u32> }
/// Our own model of positions: byte offset -> line/column and character index.
pub fn positions(b: &[u8], tab: u32) -> Pos {
    let s = std::str::from_utf8(b).unwrap();
    let (mut l, mut c, mut k) = (1u32, 1u32, 1u32);
    let mut p = Pos { lc: vec![(0, 0); b.len() + 1], ci: vec![0; b.len() + 1] };
    let mut it = s.char_indices().peekable();
    while let Some((i, ch)) = it.next() {
        p.lc[i] = (l, c); p.ci[i] = k;
        match ch {
            '\n' => { l += 1; c = 1; k += 1 }
            '\r' => { if it.peek().map(|x| x.1) == Some('\n') { it.next(); k += 1 } l += 1; c = 1; k += 1 }
            '\t' => { c = tab * ((c - 1) / tab) + 1 + tab; k += 1 }
            _ => { c += 1; k += 1 }
        }
    }
    p.lc[b.len()] = (l, c); p.ci[b.len()] = k;
    p
}
fn leaves<'a>(v: &'a V, out: &mut Vec<(&'a str, &'a str, &'a V)>) {
    match v.head() {
        "CodeParser`LeafNode" | "CodeParser`ErrorNode" if v.args().len() == 3 => { let a = v.args(); if let (V::Sym(k), V::Str(t)) = (&a[0], &a[1]) { out.push((k, t, &a[2])) } }
        _ => for x in v.args() { leaves(x, out) },
    }
}
fn src_of(m: &V, conv: i64) -> Option<((u32, u32), (u32, u32))> {
    let r = m.rule("CodeParser`Source")?.args();
    if r.len() != 2 { return None }
    if conv == 0 { let f = |v: &V| -> Option<(u32, u32)> { let a = v.args(); Some((a.first()?.as_int()? as u32, a.get(1)?.as_int()? as u32)) }; Some((f(&r[0])?, f(&r[1])?)) }
    else { Some(((0, r[0].as_int()? as u32), (0, r[1].as_int()? as u32 + 1))) }
}
fn contains_head(v: &V, h: &str) -> bool { v.head() == h || v.args().iter().any(|x| contains_head(x, h)) }
fn c09(s: &Scn, cx: &mut Ctx) -> Verdict {
    let r = exec::run(s);
    cx.note(s, &r);
    if let Some(v) = end_viol(&r, 1, s) { return vd(Some(v), true, 0) }
    let st = &s.steps[0];
    let x = &r.steps[0];
    let b = payload(st).unwrap_or_default().to_vec();
    let (conv, tab, first) = match &st.kind { Kind::Nat { opts, .. } => (opts.conv, opts.tab, opts.first), Kind::Lib { args, .. } => (args.args()[2].as_int().unwrap(), args.args()[3].as_int().unwrap(), args.args()[4].as_int().unwrap()) };
    let v = (|| {
        if x.native.starts_with("PANIC") { return bad("crash", x.native.clone()) }
        let top = match (&st.kind, x.exprs.first()) { (Kind::Lib { .. }, Some(e)) => { if e.is_failure() { return bad("crash", format!("{}: {}", what(st), e.failure_message())) } if let Seen::Garbled(g) = seen(st, x) { return bad("broken-reply", g) } e } (_, Some(e)) => e, _ => return bad("broken-reply", "no result".into()) };
        // tokenize replies: list of tokens; parse replies: 6-element list
        let tok = match &st.kind { Kind::Nat { api, .. } => api == "tokenize", Kind::Lib { func, .. } => func.starts_with("Tokenize") };
        let body = if tok { top } else { match top.args().first() { Some(b) => b, None => return bad("broken-reply", "empty reply".into()) } };
        let problems = encoding_problems(&b);
        let miss = body.args().first().filter(|m| m.is_fun("Missing")).and_then(|m| m.args().first()).and_then(|m| m.as_str());
        if !problems.is_empty() {
            return match miss { Some(m) if problems.last().is_some_and(|p| m == format!("UnsafeCharacterEncoding_{p}")) => None, Some(m) => bad("wrong-encoding-report", format!("reported {m}, but the input has {problems:?}")), None => bad("encoding-not-reported", format!("input has {problems:?}, reply {}", short(body))) };
        }
        if let Some(m) = miss { return bad("wrong-encoding-report", format!("valid text reported as {m}")) }
        let pos = positions(&b, tab as u32);
        let at = |o: usize| if conv == 0 { pos.lc[o] } else { (0, pos.ci[o]) };
        let mut ls = vec![];
        leaves(body, &mut ls);
        let cut_ok = contains_head(body, "CodeParser`GroupMissingCloserNode") || ls.iter().any(|l| l.0.contains("Unterminated"));
        let mut o = 0;
        // a script's first line is not part of the program
        let script = first != 0 && { let x: Vec<u8> = String::from_utf8_lossy(&b).replace("\\\r\n", "").replace("\\\n", "").replace("\\\r", "").into_bytes(); x.starts_with(b"#!") };
        let mut lead = script;
        if script {
            // a plain first line (nothing in it that could run on to the next) is skipped exactly
            let e = b.iter().position(|c| matches!(c, b'\n' | b'\r')).unwrap_or(b.len());
            if b[..e].iter().all(|c| matches!(c, b'#' | b'!' | b'/' | b' ' | b'-' | b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9')) { lead = false; o = if b[e..].starts_with(b"\r\n") { e + 2 } else { (e + 1).min(b.len()) } }
        }
        let mut back = None; // start of an unterminated file name, whose reported text may run over what follows it
        for (k, t, m) in &ls {
            let Some((a, z)) = src_of(m, conv) else { return bad("no-position", format!("leaf {k} {t:?} has no position")) };
            if t.is_empty() { if a != z { return bad("position", format!("empty leaf {k} spans {a:?}-{z:?}")) } continue }
            if at(o) != a || !b[o..].starts_with(t.as_bytes()) {
                // after an unterminated construct, material may be cut off: find the leaf further on
                let n = if cut_ok || lead { (back.unwrap_or(o)..b.len()).find(|&i| at(i) == a && b[i..].starts_with(t.as_bytes())) } else { None };
                match n { Some(i) => o = i, None => return bad("not-preserved", format!("leaf {k} {t:?} at {a:?} is not what the input has next (offset {o}, position {:?}): {:?}", at(o), String::from_utf8_lossy(&b[o..b.len().min(o + 30)]))) }
            }
            lead = false;
            if k.ends_with("UnterminatedFileString") { back = Some(o) }
            o += t.len();
            if at(o) != z { return bad("position", format!("leaf {k} {t:?} ends at {z:?}, but the input says {:?}", at(o))) }
        }
        // a line continuation that nothing follows belongs to no leaf
        let mut rest = &b[o..];
        while let Some(x) = rest.strip_prefix(b"\\\r\n").or(rest.strip_prefix(b"\\\n")).or(rest.strip_prefix(b"\\\r")) { rest = x; while let Some(y) = blank(rest) { rest = y } }
        if !rest.is_empty() && !cut_ok && !lead { return bad("not-preserved", format!("input from offset {o} on is missing from the leaves: {:?}", String::from_utf8_lossy(&b[o..b.len().min(o + 40)]))) }
        None
    })();
    vd(v, true, scn_key(s))
}
/// The rest after one blank character, written plainly or as an escape.
fn blank(b: &[u8]) -> Option<&[u8]> {
    if let [b' ' | b'\t' | 0x0b | 0x0c, y @ ..] = b { return Some(y) }
    let b = b.strip_prefix(b"\\")?;
    for n in ["[RawSpace]", "[RawTab]"] { if let Some(y) = b.strip_prefix(n.as_bytes()) { return Some(y) } }
    for c in [0x20, 0x09, 0x0b, 0x0c] {
        for f in [format!(".{c:02x}"), format!(":{c:04x}"), format!("|{c:06x}"), format!("{c:03o}")] {
            if b.len() >= f.len() && b[..f.len()].eq_ignore_ascii_case(f.as_bytes()) { return Some(&b[f.len()..]) }
        }
    }
    None
}
/// Which encoding problems the bytes have, by our own reading of UTF-8.
pub fn encoding_problems(b: &[u8]) -> Vec<&'static str> {
    let mut p = vec![];
    let mut i = 0;
    let mut put = |k| p.push(k);
    let c = |k: usize, lo: u8, hi: u8| b.get(k).map_or(false, |x| (lo..=hi).contains(x));
    while i < b.len() {
        // well-formed sequences of the Unicode standard's table; a broken one ends before the first byte that does not fit
        let (n, lo, hi) = match b[i] { 0..=0x7f => { i += 1; continue } 0xc2..=0xdf => (2, 0x80, 0xbf), 0xe0 => (3, 0xa0, 0xbf), 0xe1..=0xef => (3, 0x80, 0xbf), 0xf0 => (4, 0x90, 0xbf), 0xf1..=0xf3 => (4, 0x80, 0xbf), 0xf4 => (4, 0x80, 0x8f), _ => { put("IncompleteUTF8Sequence"); i += 1; continue } };
        let mut k = 1;
        while k < n && c(i + k, if k == 1 { lo } else { 0x80 }, if k == 1 { hi } else { 0xbf }) { k += 1 }
        if k < n { put("IncompleteUTF8Sequence") }
        else if b[i] == 0xed && b[i + 1] >= 0xa0 { put("StraySurrogate") }
        else if b[i..].starts_with(b"\xef\xbb\xbf") { put("BOM") }
        i += k;
    }
    p
}
// ---- C10
fn c10(s: &Scn, cx: &mut Ctx) -> Verdict {
    let r = exec::run(s);
    cx.note(s, &r);
    let mut v = end_viol(&r, s.steps.len(), s);
    for (i, (st, x)) in s.steps.iter().zip(&r.steps).enumerate() {
        if v.is_some() { break }
        let Kind::Lib { func, args } = &st.kind else { continue };
        if x.foreign + x.wrong_size > 0 { v = bad("memory", format!("step {i} ({func}) freed memory it does not own")); break }
        let g = seen(st, x);
        let neg = args.args().first().and_then(|a| a.as_int()).map_or(false, |h| h < 0);
        if neg && matches!(&g, Seen::One(a) if a.is_failure()) { continue }
        match func.as_str() {
            "DestroyParserSession" => { cx.stat("sessions_destroyed", 1); if g != Seen::One(sym("Null")) { v = bad("destroy", format!("step {i}: destroying session {} gave {}", args.args()[0].as_int().unwrap_or(0), show_seen(&g))) } }
            "CreateParserSession" => { if !matches!(&g, Seen::One(V::Int(_))) { v = bad("create", format!("step {i}: {}", show_seen(&g))) } }
            _ => {
                let mut b = st.clone();
                if let Kind::Lib { args: V::Fun(_, a), func } = &mut b.kind { if !a.is_empty() && func != "TokenIsEmpty" { a[0] = V::Int(0) } }
                let (b0, _) = cx.fresh(&b);
                let q = seen(&b, &b0);
                if g != q { v = bad("handle-matters", format!("step {i} ({func}) with handle {}: {}", short(&args.args()[0]), differ(&g, &q))) }
            }
        }
    }
    vd(v, true, scn_key(s))
}
// ---- C11
fn c11(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut s0 = s.clone();
    resolve(&mut s0, cx);
    let mut t = s0.clone();
    let rounds = s.knob.first().copied().unwrap_or(12).max(4) as usize;
    let vary = s.knob.get(1) == Some(&1);
    let n = s0.steps.len();
    t.steps.clear();
    for k in 0..rounds {
        for st in &s0.steps {
            let mut st = st.clone();
            // distinct requests of the same size each round
            if vary {
                let rich = s.seed % 3 == 0;
                if let Some(b) = payload(&st) { let mut b = b.to_vec(); b.extend(if rich { format!("\nz{k:04}`y{k:04}[\"s{k:04}\",1{k:04}.5,\\[Qq{k:04}],(*{k:04}*)x::m{k:04}]") } else { format!("\nz{k:04}") }.bytes()); set_payload(&mut st, b) }
                // and another name for the file
                if rich { if let Kind::Lib { func, args: V::Fun(_, a) } = &mut st.kind { if func.ends_with("File") && a.len() > 1 {
                    if let V::Str(p) = &mut a[1] { let q = format!("{p}{k:04}"); for f in &mut st.files { if f.path == *p { f.path = q.clone() } } *p = q }
                } } }
            }
            t.steps.push(st)
        }
    }
    let r = exec::run(&t);
    cx.note(&t, &r);
    let mut v = end_viol(&r, t.steps.len(), &t);
    if v.is_none() {
        for (i, x) in r.steps.iter().enumerate() {
            if x.bufs > 0 { v = bad("link-buffer", format!("step {} ({}) kept {} link buffer(s)", i % n, what(&t.steps[i]), x.bufs)); break }
            if x.bad_release > 0 { v = bad("link-buffer", format!("step {} ({}) released a link buffer it does not hold", i % n, what(&t.steps[i]))); break }
            if x.fds_open > 0 { v = bad("file-handle", format!("step {} ({}) left {} file handle(s) open", i % n, what(&t.steps[i]), x.fds_open)); break }
        }
    }
    if v.is_none() && n > 0 {
        let at = |k: usize| { let x = &r.steps[k * n + n - 1]; (x.live_blocks, x.live_bytes) };
        let (a, z) = (at(rounds / 3), at(rounds - 1));
        if z.1 > a.1 { v = bad("memory-growth", format!("memory held between requests grew from {} bytes in {} blocks after round {} to {} bytes in {} blocks after round {}", a.1, a.0, rounds / 3 + 1, z.1, z.0, rounds)) }
        cx.stat("rounds", rounds as u64);
    }
    vd(v, true, scn_key(&s0))
}
// ---- C13
fn c13(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut s = s.clone();
    resolve(&mut s, cx);
    let mut a = s.clone();
    a.rand = 1; a.clock = 0; a.shift = 0; a.env.clear();
    let (x, y) = (exec::run(&a), exec::run(&s));
    cx.note(&s, &y);
    let mut v = end_viol(&x, s.steps.len(), &s).or_else(|| end_viol(&y, s.steps.len(), &s));
    if v.is_none() {
        for (i, st) in s.steps.iter().enumerate() {
            let (p, q) = (seen(st, &x.steps[i]), seen(st, &y.steps[i]));
            if p != q { v = bad("environment", format!("step {i} ({}): {}", what(st), differ(&p, &q))); break }
        }
    }
    cx.stat("random_seed_changed", (y.rand_calls > 0) as u64);
    cx.stat("clock_jumped", 1);
    cx.stat("heap_layout_shifted", (s.shift > 0) as u64);
    cx.stat("environment_changed", (!s.env.is_empty()) as u64);
    vd(v, y.rand_calls > 0 || s.shift > 0, scn_key(&s))
}
// ---- C14
fn c14(s: &Scn, cx: &mut Ctx) -> Verdict {
    let mut s = s.clone();
    let (x, e) = cx.fresh(&s.steps[0]);
    if e != End::Ok { return vd(bad("crash", format!("{e:?}")), false, 0) }
    let Some(reply) = x.exprs.first() else { return vd(None, false, 0) };
    let conv = match &s.steps[0].kind { Kind::Nat { opts, .. } => opts.conv, _ => 0 };
    let c = dress(reply, conv, s.knob[0]);
    let before: Vec<Step> = s.steps.drain(1..).collect();
    s.steps = before;
    resolve(&mut s, cx);
    s.steps.push(Step::new(roundtrip(c.clone())));
    if (s.knob[0] >> 7) % 3 == 0 { full_args(&mut s.steps.last_mut().unwrap().kind) }
    let r = exec::run(&s);
    cx.note(&s, &r);
    let mut v = end_viol(&r, s.steps.len(), &s);
    if v.is_none() {
        let g = seen(s.steps.last().unwrap(), r.steps.last().unwrap());
        let want = norm_container(&c);
        v = match &g { Seen::One(a) if norm_container(a) == want => None, Seen::One(a) => bad("changed", format!("container came back changed: {}", diff(&norm_container(a), &want))), _ => bad("changed", show_seen(&g)) };
        if std::env::var("CPSIM_CAL").is_ok() { if let Some(e) = r.steps.last().unwrap().exprs.first() { if e.is_failure() { println!("{}", text(e)) } } }
    }
    vd(v, true, scn_key(&s))
}
fn norm_container(v: &V) -> V { if v.is_failure() { norm(v) } else { sort_assoc(&v.canon()) } }
fn at_v(p: &[i64]) -> V { list(p.iter().map(|x| V::Int(*x)).collect()) }
fn src_meta(s: V) -> V { fun("Association", vec![fun("Rule", vec![sym("CodeParser`Source"), s])]) }
/// Give the nodes of a text parse the positions they would have as nested row boxes:
/// the i-th piece of the row at p is at p,1,i; text-less tokens come before or after a piece.
/// Returns false for shapes that rows of boxes do not give.
fn boxify(v: &mut V, p: &[i64]) -> bool {
    if p.len() > 400 { return false }
    let head = v.head().to_string();
    let V::Fun(_, a) = v else { return false };
    if a.len() != 3 { return false }
    match head.as_str() {
        "CodeParser`LeafNode" | "CodeParser`ErrorNode" => { a[2] = src_meta(at_v(p)); true }
        "CodeParser`CompoundNode" => { a[2] = src_meta(at_v(p)); whole(&mut a[1], p) }
        "CodeParser`CallNode" => {
            let mut q = p.to_vec(); q.extend([1, 1]);
            if a[0].is_fun("List") {
                if a[0].args().len() != 1 { return false }
                if let V::Fun(_, h) = &mut a[0] { if !boxify(&mut h[0], &q) { return false } }
            } else if !boxify(&mut a[0], &q) { return false }
            if let V::Fun(_, g) = &mut a[1] {
                if g.len() != 3 { return false }
                let one = g[1].args().len() == 1;
                if !row(&mut g[1], p, 2) { return false }
                g[2] = if one { q[p.len() + 1] = 2; src_meta(at_v(&q)) } else { fun("Association", vec![]) };
            }
            a[2] = src_meta(at_v(p));
            true
        }
        _ => {
            a[2] = src_meta(at_v(p));
            let n = a[1].args().len();
            if n == 1 { if let V::Fun(_, c) = &mut a[1] { return boxify(&mut c[0], p) } }
            n > 1 && row(&mut a[1], p, 1)
        }
    }
}
/// Take the opener of the first group away: such groups come from boxes only.
fn drop_opener(v: &mut V) -> bool {
    let head = v.head().to_string();
    let V::Fun(h, a) = v else { return false };
    if head == "CodeParser`CallNode" { return drop_opener(&mut a[0]) }
    if head == "CodeParser`GroupNode" && a.len() == 3 && a[1].args().len() >= 2 {
        if let V::Fun(_, c) = &mut a[1] { c.remove(0); }
        **h = sym("CodeParser`GroupMissingOpenerNode");
        return true;
    }
    a.iter_mut().any(drop_opener)
}
fn whole(l: &mut V, p: &[i64]) -> bool { if let V::Fun(_, c) = l { for x in c { if ["CodeParser`LeafNode", "CodeParser`ErrorNode", "CodeParser`CompoundNode"].contains(&x.head()) { if !boxify(x, p) { return false } } else { return false } } } true }
fn row(l: &mut V, p: &[i64], from: i64) -> bool {
    let V::Fun(_, c) = l else { return false };
    let mut i = from;
    for x in c.iter_mut() {
        let mut q = p.to_vec(); q.extend([1, i]);
        let empty = matches!(x.head(), "CodeParser`LeafNode" | "CodeParser`ErrorNode") && x.args().get(1).and_then(|t| t.as_str()) == Some("");
        if empty {
            let s = if i == from { fun("Before", vec![at_v(&q)]) } else { q[p.len() + 1] = i - 1; fun("After", vec![at_v(&q)]) };
            if let V::Fun(_, a) = x { a[2] = src_meta(s) }
        } else { if !boxify(x, &q) { return false } i += 1 }
    }
    true
}
const BOXES: [&str; 14] = ["RowBox", "GridBox", "TagBox", "TemplateBox", "InterpretationBox", "SubscriptBox", "SuperscriptBox", "StyleBox", "NamespaceBox", "OverscriptBox", "SubsuperscriptBox", "GraphicsBox", "FractionBox", "SqrtBox"];
/// A container as the package layer would assemble it around a parser reply.
fn dress(reply: &V, _conv: i64, k: u64) -> V {
    let mut r = Rng::new(k, 14);
    let mut nodes = reply.args()[0].clone();
    if nodes.args().is_empty() { nodes = list(vec![fun("Missing", vec![st("EmptyInput")])]) }
    let missing = nodes.args().first().map_or(false, |m| m.is_fun("Missing"));
    let boxes = r.p(1, 4);
    let kind = if boxes { *r.pick(&["Cell", "Box"]) } else { *r.pick(&TEXT_KINDS) };
    if boxes && !missing {
        if r.p(1, 3) { drop_opener(&mut nodes); }
        let shape = V::Fun(Box::new(sym("CodeParser`BoxNode")), vec![sym("RowBox"), nodes.clone(), fun("Association", vec![])]);
        let mut top = if nodes.args().len() == 1 { nodes.args()[0].clone() } else { shape };
        // (the piece shown may lie anywhere in a notebook's boxes)
        let at: Vec<i64> = if r.p(1, 4) { (0..r.r(1, 4)).map(|_| *r.pick(&[1, 2, 3, 9, 127, 128, 255, 256, 300, 4096, 32_767, 32_768, 65_535, 65_536, 70_000, 1 << 31, 1 << 32])).collect() } else { vec![] };
        if boxify(&mut top, &at) {
            let mut kids = vec![top];
            if r.p(1, 3) {
                // pieces that exist only in boxes: typeset structures, opaque code
                let b = *r.pick(&BOXES);
                let mut x = kids[0].clone();
                boxify(&mut x, &[1]);
                let mut body = vec![x];
                if r.p(1, 2) { body.push(V::Fun(Box::new(sym("CodeParser`CodeNode")), vec![sym("CodeParser`Evaluated"), fun("Global`f", vec![V::Int(2), st("é"), real(2.5), list(vec![sym("Global`x"), V::Int(-7)])]), fun("Association", vec![])])) }
                if r.p(1, 2) { body.push(V::Fun(Box::new(sym("CodeParser`LeafNode")), vec![sym("Symbol"), st("zz"), src_meta(at_v(&[2]))])) }
                kids = vec![V::Fun(Box::new(sym("CodeParser`BoxNode")), vec![sym(b), list(body), src_meta(at_v(&[]))])];
            }
            nodes = list(kids);
        } else { nodes = list(vec![V::Fun(Box::new(sym("CodeParser`LeafNode")), vec![sym("String"), st("q"), src_meta(at_v(&[]))])]) }
    }
    let mut c = container(kind, nodes, if !boxes && r.p(3, 4) { Some(reply) } else { None }, 0);
    if let V::Fun(_, a) = &mut c {
        if let V::Fun(_, m) = &mut a[2] {
            if r.p(1, 3) && !boxes { let e = list(vec![list(vec![V::Int(1), V::Int(1)]), list(vec![V::Int(2), V::Int(7)])]); m.push(fun("Rule", vec![sym("CodeParser`Source"), e])) }
            if r.p(1, 4) { let f = r.pick(&[st("/tmp/é x.wl"), st(""), fun("File", vec![st("a.wl")]), sym("None"), list(vec![st("x"), V::Int(-3)])]).clone(); m.push(fun("Rule", vec![st("FileName"), f])) }
            if r.p(1, 6) { let f = r.pick(&[real(0.95), real(1.0), real(0.0), V::Int(1), V::Int(0)]).clone(); m.push(fun("Rule", vec![sym("ConfidenceLevel"), f])) }
            if r.p(1, 5) { let d = (0..r.n(3)).map(|_| st(r.ps(&["", "note", "é ∫ \"q\"", "two\nlines"]))).collect(); m.push(fun("Rule", vec![st("AdditionalDescriptions"), list(d)])) }
            if r.p(1, 5) { let d = (0..r.n(3)).filter_map(|_| (!boxes).then(|| action(&mut r))).collect(); m.push(fun("Rule", vec![sym("CodeParser`CodeActions"), list(d)])) }
            if !boxes && r.p(1, 3) {
                let more: Vec<V> = (0..r.n(3)).map(|_| issue(&mut r)).collect();
                match m.iter_mut().find(|x| x.args()[0].is_sym("CodeParser`SyntaxIssues")) {
                    Some(V::Fun(_, x)) => if let V::Fun(_, l) = &mut x[1] { for i in more { let at = r.n(l.len() + 1); l.insert(at, i) } },
                    _ => m.push(fun("Rule", vec![sym("CodeParser`SyntaxIssues"), list(more)])),
                }
            }
            if m.len() > 1 && r.p(1, 3) { let k = r.n(m.len()); m.rotate_left(k) }
        }
    }
    if r.p(1, 3) { full_names(&mut c) }
    c
}
fn span_v(r: &mut Rng) -> V {
    let mut n = || V::Int(*r.pick(&[1, 2, 3, 17, 255, 256, 65_536, 1 << 31, u32::MAX as i64 - 1]));
    let (mut a, mut b, mut c, mut d) = (n(), n(), n(), n());
    if (c.as_int(), d.as_int()) < (a.as_int(), b.as_int()) { std::mem::swap(&mut a, &mut c); std::mem::swap(&mut b, &mut d) }
    if r.p(1, 3) { if b.as_int() < a.as_int() { std::mem::swap(&mut a, &mut b) } list(vec![a, b]) } else { list(vec![list(vec![a, b]), list(vec![c, d])]) }
}
fn action(r: &mut Rng) -> V {
    let s = fun("Rule", vec![sym("CodeParser`Source"), span_v(r)]);
    let t = st(r.ps(&["", "x", "é", "\\[Alpha]", "(* c *)", "a\nb"]));
    let (k, m) = match r.n(3) { 0 => ("DeleteText", vec![s]), 1 => ("ReplaceText", vec![s, fun("Rule", vec![st("ReplacementText"), t])]), _ => ("InsertText", vec![s, fun("Rule", vec![st("InsertionText"), t])]) };
    V::Fun(Box::new(sym("CodeParser`CodeAction")), vec![st(r.ps(&["Do it", "", "Replace with ``é``"])), sym(&format!("CodeParser`{k}")), fun("Association", m)])
}
/// Any issue the format allows.
fn issue(r: &mut Rng) -> V {
    let tag = r.ps(&["Ambiguous", "UnhandledCharacter", "UnexpectedCharacter", "UnexpectedCarriageReturn", "UnexpectedSpaceCharacter", "UnexpectedNewlineCharacter", "UnexpectedDot", "UnexpectedSign", "UnexpectedImplicitTimes", "UnexpectedLetterlikeCharacter", "UnrecognizedLongName", "UndocumentedSlotSyntax", "NonASCIICharacter", "IncompleteUTF8Sequence", "StraySurrogate", "BOM", "SyntaxUndocumentedMessageName", "PrefixNotNot", "StrangeCall", "StrangeCallSlotSequence"]);
    let mut m = vec![fun("Rule", vec![sym("CodeParser`Source"), span_v(r)]), fun("Rule", vec![sym("ConfidenceLevel"), r.pick(&[real(1.0), real(0.95), real(0.5), real(0.0), real(0.333333333333)]).clone()])];
    if r.p(1, 2) { m.push(fun("Rule", vec![sym("CodeParser`CodeActions"), list((0..r.r(1, 3)).map(|_| action(r)).collect())])) }
    if r.p(1, 3) { m.push(fun("Rule", vec![st("AdditionalDescriptions"), list((0..r.r(1, 3)).map(|_| st(r.ps(&["d", "", "é"]))).collect())])) }
    V::Fun(Box::new(sym(&format!("CodeParser`{}", r.ps(&["SyntaxIssue", "EncodingIssue", "FormatIssue"])))), vec![st(tag), st(r.ps(&["Text.", "", "``\\[Bad]`` é", "a\"b"])), st(r.ps(&["Formatting", "Remark", "Warning", "Error", "Fatal"])), fun("Association", m)])
}
/// A whole argument list from a transport that writes every symbol in full.
fn full_args(k: &mut Kind) { if let Kind::Lib { args, .. } = k { full_names(args) } }
/// The transport may or may not abbreviate System symbols.
fn full_names(v: &mut V) {
    match v {
        V::Sym(s) => if !s.contains('`') { *s = format!("System`{s}") },
        V::Fun(h, a) => { full_names(h); for x in a { full_names(x) } }
        _ => {}
    }
}
// ---- C15
/// Abstraction of typeset structures, which no text parse gives: the reply for a box must be that
/// box around the replies for its parts, and opaque code must come back as it was sent.
fn c15_box(s: &Scn, cx: &mut Ctx, bytes: &[u8], o: &Opts, k: i64) -> Verdict {
    let r = &mut Rng::new(k as u64, 15);
    let cpf = |h: &str, a: Vec<V>| V::Fun(Box::new(sym(&format!("CodeParser`{h}"))), a);
    let leaf = |kind: &str, t: &str, p: &[i64]| cpf("LeafNode", vec![sym(kind), st(t), src_meta(at_v(p))]);
    let (g, _) = cx.fresh(&Step::new(nat("agg", bytes, o, 0)));
    let nodes: Vec<V> = g.exprs.first().map_or(vec![], |v| v.args().to_vec());
    let mut kids: Vec<V> = vec![];
    for i in 0..r.r(2, 4) as i64 {
        let mut n = if nodes.is_empty() || r.p(1, 4) { leaf("Symbol", "zz", &[i + 1]) } else { r.pick(&nodes).clone() };
        if !boxify(&mut n, &[i + 1]) { n = leaf("Integer", "12", &[i + 1]) }
        kids.push(n);
    }
    let mut code = cpf("CodeNode", vec![sym("CodeParser`Evaluated"), r.pick(&[sym("Global`q"), fun("Global`f", vec![V::Int(2), st("é"), real(2.5), list(vec![sym("Global`x"), V::Int(-7)])]), V::Int(5), st("a\"b"), list(vec![])]).clone(), if r.p(1, 2) { src_meta(at_v(&[9])) } else { fun("Association", vec![]) }]);
    let form = r.n(6);
    // the request, the parts whose replies it is made of, and how
    let pre = { let d = r.n(3); (0..d).map(|_| r.r(1, 4) as i64).collect::<Vec<_>>() };
    let data = match r.n(4) { 0 => fun("Association", vec![]), 1 => src_meta(fun("After", vec![at_v(&[1, 2])])), _ => src_meta(at_v(&pre)) };
    let parts: Vec<V>;
    let make: Box<dyn Fn(&[V], bool) -> V>;
    let group = |op: &str, a: Vec<V>| cpf("GroupNode", vec![sym(op), list(a), fun("Association", vec![])]);
    match form {
        0 => { // SuperscriptBox of a derivative
            if let V::Fun(_, a) = &mut code { a[0] = sym("System`Evaluated"); a[1] = sym("System`Derivative") }
            let (op, cl) = (leaf("Token`OpenParen", "(", &[2, 1, 1]), leaf("Token`CloseParen", ")", &[2, 1, 3]));
            parts = vec![kids[0].clone(), op, kids[1].clone(), cl];
            let (d, c) = (data.clone(), code.clone());
            make = Box::new(move |p, _| cpf("BoxNode", vec![sym("SuperscriptBox"), list(vec![p[0].clone(), cpf("BoxNode", vec![sym("TagBox"), list(vec![group("CodeParser`GroupParen", p[1..4].to_vec()), c.clone()]), src_meta(at_v(&[2]))])]), d.clone()]));
        }
        1 => { // SubscriptBox of a part
            let double = r.p(1, 2);
            let (op, cl) = if double { (leaf("Token`LongName`LeftDoubleBracket", "\u{301a}", &[2, 1, 1]), leaf("Token`LongName`RightDoubleBracket", "\u{301b}", &[2, 1, 3])) } else { (leaf("Token`OpenSquare", "[", &[2, 1, 1]), leaf("Token`CloseSquare", "]", &[2, 1, 3])) };
            parts = vec![kids[0].clone(), op, kids[1].clone(), cl];
            let d = data.clone();
            make = Box::new(move |p, _| cpf("BoxNode", vec![sym("SubscriptBox"), list(vec![p[0].clone(), if double { group("CodeParser`GroupDoubleBracket", p[1..4].to_vec()) } else { group("CodeParser`GroupSquare", vec![p[1].clone(), group("CodeParser`GroupSquare", p[1..4].to_vec()), p[3].clone()]) }]), d.clone()]));
        }
        2 => { // a group without its opener
            let g = *r.pick(&["CodeParser`GroupParen", "CodeParser`GroupSquare", "List", "CodeParser`GroupDoubleBracket", "Association", "AngleBracket", "Ceiling", "Floor", "BracketingBar", "DoubleBracketingBar"]);
            let n = kids.len() as i64;
            for (i, x) in kids.iter_mut().enumerate() { if !boxify(x, &[3, 1, i as i64 + 1]) { *x = leaf("Integer", "12", &[3, 1, i as i64 + 1]) } }
            let cl = leaf("Token`CloseParen", ")", &[3, 1, n + 1]);
            parts = kids.clone();
            make = Box::new(move |p, sent| {
                let v: Vec<V> = if sent { p.iter().cloned().chain([cl.clone()]).collect() } else { p.iter().flat_map(|x| if comma(x) { x.args()[1].args().to_vec() } else { vec![x.clone()] }).collect() };
                cpf("GroupMissingOpenerNode", vec![sym(g), list(v), src_meta(at_v(&[3]))])
            });
        }
        _ => {
            let b = loop { let b = *r.pick(&BOXES); if b != "RowBox" && b != "GridBox" { break b } };
            let at = r.n(kids.len() + 1);
            let inner = if r.p(1, 3) { Some((*r.pick(&["StyleBox", "TagBox", "FractionBox", "FrameBox"]), r.n(kids.len()))) } else { None };
            let with = r.p(1, 2);
            let d = data.clone();
            parts = kids.clone();
            make = Box::new(move |p, _| {
                let mut v = p.to_vec();
                if let Some((k, i)) = inner { v[i] = cpf("BoxNode", vec![sym(k), list(vec![v[i].clone(), code.clone()]), src_meta(at_v(&[7]))]) }
                if with { v.insert(at, code.clone()) }
                cpf("BoxNode", vec![sym(b), list(v), d.clone()])
            });
        }
    }
    let kind = *r.pick(&["Box", "Cell"]);
    let mut t = Scn::new("C15", s.seed);
    t.rand = s.rand;
    for n in parts.iter().cloned().chain([make(&parts, true)]) { let mut k = abstract_(n, &o.quirks, kind); if s.knob[0] % 3 == 0 { full_args(&mut k) } t.steps.push(Step::new(k)) }
    let x = exec::run(&t);
    cx.note(&t, &x);
    let mut v = end_viol(&x, t.steps.len(), &t);
    let mut done = false;
    if v.is_none() {
        let got: Vec<Seen> = (0..t.steps.len()).map(|i| seen(&t.steps[i], &x.steps[i])).collect();
        let sub: Vec<V> = got[..parts.len()].iter().filter_map(|g| match g { Seen::One(e) if !e.is_failure() => Some(e.clone()), _ => None }).collect();
        if sub.len() == parts.len() {
            done = true;
            cx.stat("box_abstractions", 1);
            // the positions of the groups kept in place are computed: not compared
            let want = ungroup(&norm(&make(&sub, false)), form < 2);
            v = match got.last().unwrap() { Seen::One(a) if ungroup(a, form < 2) == want => None, Seen::One(a) => bad("unfaithful", format!("{}: link {}", what(t.steps.last().unwrap()), diff(&ungroup(a, form < 2), &want))), g => bad("unfaithful", format!("{}: {}", what(t.steps.last().unwrap()), show_seen(g))) };
        }
    }
    vd(v, done, scn_key(&t))
}
fn comma(x: &V) -> bool { x.head() == "CodeParser`CallNode" && x.args()[0].args().get(1).and_then(|t| t.as_str()) == Some("CodeParser`Comma") }
fn ungroup(v: &V, yes: bool) -> V {
    let mut v = v.clone();
    if yes { fn go(v: &mut V) { let g = v.head() == "CodeParser`GroupNode"; if let V::Fun(_, a) = v { if g && a.len() == 3 { a[2] = fun("Association", vec![]) } for x in a { go(x) } } } go(&mut v) }
    v
}
fn c15(s: &Scn, cx: &mut Ctx) -> Verdict {
    let st0 = &s.steps[0];
    if let Kind::Nat { api, bytes, opts, mode } = &st0.kind { if api == "absbox" { return c15_box(s, cx, bytes, opts, *mode) } }
    let (x, e) = cx.fresh(st0);
    if e != End::Ok { return vd(bad("crash", format!("{e:?}")), false, 0) }
    if let Kind::Lib { args, .. } = &st0.kind {
        // token predicate: True for exactly the tokens that stand for no text
        let V::Sym(tok) = &args.args()[0] else { return vd(None, false, 0) };
        let want = sym(if gen::EMPTY_TOKS.contains(&strip(tok)) { "True" } else { "False" });
        let g = seen(st0, &x);
        return vd(if g == Seen::One(want.clone()) { None } else { bad("unfaithful", format!("TokenIsEmpty[{tok}] gave {}", show_seen(&g))) }, true, scn_key(s));
    }
    let Kind::Nat { api, bytes, opts: o, mode } = &st0.kind else { return vd(None, false, 0) };
    let o = &mut o.clone();
    let mut t = Scn::new("C15", s.seed);
    t.rand = s.rand;
    let native_panic = x.native.starts_with("PANIC");
    let mut want: Vec<V> = x.exprs.clone();
    let mut reqs: Vec<Step> = vec![];
    match api.as_str() {
        "cst" | "tokenize" => {
            if o.enc != 0 { o.enc = 0; let (y, _) = cx.fresh(&Step::new(nat(api, bytes, o, 0))); want = y.exprs.clone(); if y.native.starts_with("PANIC") { return vd(None, false, 0) } }
            let f = if api == "cst" { "ConcreteParse" } else { "Tokenize" };
            if s.knob[0] < 4 { reqs.push(Step::new(parse_bytes(&format!("{f}Bytes"), bytes, o))) }
            else { let mut st = Step::new(parse_file(&format!("{f}File"), "/simfs/f.wl", o)); st.files.push(crate::seam::SimFile { path: "/simfs/f.wl".into(), content: bytes.clone(), ..Default::default() }); reqs.push(st) }
        }
        "leaf" => reqs.push(Step::new(leaf(bytes, *mode, o))),
        "safe" => reqs.push(Step::new(safe_string(bytes))),
        _ => {
            // every aggregated node through Abstract
            let (g, _) = cx.fresh(&Step::new(nat("agg", bytes, o, 0)));
            let Some(v) = g.exprs.first() else { return vd(None, false, 0) };
            if native_panic || v.args().is_empty() { return vd(None, false, 0) }
            let kind = TEXT_KINDS[s.knob[0] as usize % 4];
            for n in v.args() { reqs.push(Step::new(abstract_(n.clone(), &o.quirks, kind))); if s.knob[0] % 3 == 0 { full_args(&mut reqs.last_mut().unwrap().kind) } }
            want = x.exprs[0].args().to_vec();
        }
    }
    t.steps = reqs;
    let r = exec::run(&t);
    cx.note(&t, &r);
    let mut v = end_viol(&r, t.steps.len(), &t);
    if v.is_none() {
        for i in 0..t.steps.len() {
            let g = seen(&t.steps[i], &r.steps[i]);
            v = match (&g, native_panic) {
                (Seen::One(a), true) if a.is_failure() => None,
                (_, true) => bad("masked", format!("native call panics ({}), link reply {}", x.native, show_seen(&g))),
                (Seen::One(a), false) => { let w = norm(&want[i]); if *a == w { None } else { bad("unfaithful", format!("{}: link {}", what(&t.steps[i]), diff(a, &w))) } }
                _ => bad("unfaithful", format!("{}: {}", what(&t.steps[i]), show_seen(&g))),
            };
            if v.is_some() { break }
        }
    }
    vd(v, !want.is_empty(), scn_key(&t))
}

// ---- what a check is, for its evidence
pub struct Describe { pub rule: &'static str, pub real: Vec<String>, pub stubs: Vec<String>, pub assumptions: Vec<String> }
pub fn describe(id: &str) -> Describe {
    let v = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut real = v(&["wolfram-parser (built from /repo with CHECK_ABORT, as the library ships it)", "Rust standard library"]);
    let mut stubs = vec![];
    let lib = id != "C02" && id != "C12";
    if lib {
        real.extend(v(&["codeparser-wll exported library functions (from /repo)", "wolfram-library-link and wstp crates"]));
        stubs.extend(v(&["WSTP C library: in-process model of a loopback link with planned operation failures", "LibraryLink kernel data: AbortQ, validatePath, library data"]));
    }
    if ["C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C22"].contains(&id) { stubs.extend(v(&["file system under /simfs: open, read, stat, close with planned faults"])) }
    if id != "C12" { stubs.extend(v(&["random source, clocks, heap accounting, step clock at every basic block of the code under test"])) } else {
        real = v(&["the command-line tool as shipped (release build of /repo, separate process)", "wolfram-parser in process, as the oracle for one line"]);
        stubs = v(&["read, write, open and getrandom of the tool's process (preloaded shim)"]);
    }
    if id == "C02" { stubs.extend(v(&["thread scheduler: one thread runs at a time, switched by plan at basic blocks; futex waits are scheduling points"])) }
    let rule = match id {
        "C01" => "2-9 random requests and native calls (some with aborts, link faults, refused or failing files, malformed arguments) over 1-3 threads of one process; each unfaulted one must be answered as by a fresh process. Non-trivial: at least one unfaulted request had a predecessor. Distinct by scenario without seeds.",
        "C02" => "2-4 threads with 1-3 native calls each under a seeded preemptive schedule (sparse, dense or burst switches at basic blocks), often the same input under different quirks; each result must equal the call alone. Non-trivial: at least one preemption happened. Distinct by scenario and interleaving taken.",
        "C03" => "a long input in one of 86 shapes; the abort flag is raised at a random basic block of the request; the request must return within 8000 + 45% of the steps already done. Non-trivial: the unaborted request would have gone on beyond that bound. Distinct by scenario and abort point.",
        "C04" => "one request with the abort flag raised at a random basic block or poll, then 1-2 clean requests; the reply must be one whole expression that is the full reply, a failure, or a truthful cut of it, and the later replies those of a fresh library. Non-trivial: the code saw the abort. Distinct by scenario.",
        "C05" => "one request with one link operation, drawn uniformly from those it performs, failing once or for good; then a clean request. Non-trivial: the fault fired. Distinct by scenario and fault point.",
        "C06" => "one request, 3 in 4 made malformed in one of nine ways, then a clean request. All are non-trivial. Distinct by scenario.",
        "C07" => "1-4 requests, mostly for files, half of them refused permission, some with file faults, link faults, malformed arguments or aborts; the order of permission callbacks and file-system calls is checked. Non-trivial: a permission callback happened. Distinct by scenario.",
        "C08" => "1-3 file requests with planned open errors, EINTR, short reads, read errors, early end of file, misreported size, directories; the reply must be that of the bytes request or a failure. Non-trivial: a file fault fired. Distinct by scenario.",
        "C09" => "one source text, 4 in 6 damaged once or twice (truncation, bit flips, lost, zeroed, doubled, garbage or misplaced blocks, broken encodings, torn tail), parsed or tokenized; leaves are compared with the bytes and with an independent position model. All are non-trivial. Distinct by scenario.",
        "C10" => "2-9 session and parse requests with arbitrary handles; replies, heap table and process survival are checked. All are non-trivial. Distinct by scenario.",
        "C11" => "1-4 requests, most with faults, repeated 12 or 24 rounds in one process; link buffers, file handles and live heap are accounted after every request. All are non-trivial. Distinct by scenario.",
        "C12" => "up to 1200 lines on standard input (or a file) with planned short reads, EINTR, read errors, early end of input, short and interrupted writes; output and exit status are compared with one in-process call per line. Non-trivial: a line was answered or an error was owed. Distinct by scenario.",
        "C13" => "1-3 requests run under two different random seeds, heap layouts, clocks and environments; replies must agree. All are non-trivial. Distinct by scenario.",
        "C14" => "a container made from a real concrete parse (sometimes dressed as boxes or code, with extra metadata) sent through the round-trip function, with other requests before; the reply must be the same expression, under both symbol spellings. All are non-trivial. Distinct by scenario.",
        "C22" => "one request for a text of 50-2000 bytes (up to 6000 in the thorough tier) that repeats or nests random pieces, 1 in 3 with an abort, link fault or read faults and another request after it; each must end within 120 n^2 + 60000 n + 1000000 basic blocks and 200 n^2 + 50000 n + 4000000 bytes of heap. Non-trivial: the request took more than 2000 basic blocks. Distinct by scenario.",
        _ => "one request and the native call for the same bytes and options; the reply must equal our own encoding of the native result. Non-trivial: the reply carries a result. Distinct by scenario.",
    };
    let mut assumptions = v(&["seeded search, not exhaustive: a violation needs to be reached by a generated scenario"]);
    if lib { assumptions.extend(v(&["the link model follows the documented WSTP behaviour the crates rely on; the real WSTP library is not present"])) }
    if id == "C02" { assumptions.extend(v(&["threads are interleaved at basic blocks under sequential consistency; weak-memory effects are not simulated"])) }
    if id == "C03" { assumptions.extend(v(&["work is counted in basic blocks of wolfram-parser and codeparser-wll; a single token is not interrupted"])) }
    if id == "C22" { assumptions.extend(v(&["work is counted in basic blocks of wolfram-parser and codeparser-wll, memory in bytes they allocate; the constants are five and more times what the code needs on any generated input"])) }
    if id == "C09" { assumptions.extend(v(&["inputs nest at most a few dozen levels; stack exhaustion by deep nesting is out of scope"])) }
    Describe { rule, real, stubs, assumptions }
}
