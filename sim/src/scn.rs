//! A scenario: everything one simulated run depends on, as explicit data.
use crate::seam::{RFault, SimFile};
use crate::value::*;
use crate::wstp::{Abort, LFault};

#[derive(Clone, Debug, PartialEq)]
pub struct Opts { pub conv: i64, pub tab: i64, pub first: i64, pub enc: i64, pub quirks: [bool; 3] }
impl Default for Opts { fn default() -> Self { Opts { conv: 0, tab: 4, first: 0, enc: 0, quirks: [true, false, false] } } }
pub const QN: [&str; 3] = ["InfixBinaryAt", "FlattenTimes", "OldAtAtAt"];
impl Opts {
    pub fn quirks_v(&self) -> V { quirks_v(&self.quirks) }
}
pub fn quirks_v(q: &[bool; 3]) -> V {
    fun("Association", (0..3).map(|i| fun("Rule", vec![st(QN[i]), sym(if q[i] { "True" } else { "False" })])).collect())
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// A LibraryLink call: exported function and the argument list the kernel puts on the link.
    Lib { func: String, args: V },
    /// A call of the native Rust API.
    Nat { api: String, bytes: Vec<u8>, opts: Opts, mode: i64 },
}
#[derive(Clone, Debug)]
pub struct Step { pub thread: u8, pub kind: Kind, pub abort: Abort, pub lf: Vec<(u64, LFault)>, pub deny: bool, pub files: Vec<SimFile> }
impl Step {
    pub fn new(kind: Kind) -> Step { Step { thread: 0, kind, abort: Abort::No, lf: vec![], deny: false, files: vec![] } }
    pub fn clean(&self) -> bool { self.abort == Abort::No && self.lf.is_empty() && !self.deny && self.files.iter().all(|f| f.open_err.is_empty() && f.reads.is_empty() && f.size_lie.is_none() && f.stat_err == 0 && !f.dir) }
    /// The same request with no fault injected.
    pub fn without_faults(&self) -> Step {
        let mut s = self.clone();
        s.abort = Abort::No; s.lf.clear(); s.thread = 0;
        s
    }
}
#[derive(Clone, Debug)]
pub struct Conc { pub n: usize, pub slice: u64, pub switches: Vec<(u64, u8)>, pub first: usize }
#[derive(Clone, Debug)]
pub struct Scn {
    pub check: String, pub seed: u64, pub rand: u64, pub clock: u64, pub shift: usize, pub env: Vec<(String, String)>,
    pub conc: Option<Conc>, pub steps: Vec<Step>, pub knob: Vec<u64>, pub mem: bool,
}
impl Scn {
    pub fn new(check: &str, seed: u64) -> Scn {
        Scn { check: check.into(), seed, rand: 0x5eed, clock: 1_700_000_000_000_000_000, shift: 0, env: vec![], conc: None, steps: vec![], knob: vec![], mem: false }
    }
}
// ---- requests
pub fn lib(func: &str, args: Vec<V>) -> Kind { Kind::Lib { func: func.into(), args: list(args) } }
pub fn parse_bytes(func: &str, b: &[u8], o: &Opts) -> Kind { lib(func, vec![V::Int(0), bytearray(b), V::Int(o.conv), V::Int(o.tab), V::Int(o.first), o.quirks_v()]) }
pub fn parse_file(func: &str, path: &str, o: &Opts) -> Kind { lib(func, vec![V::Int(0), st(path), V::Int(o.conv), V::Int(o.tab), V::Int(o.first), o.quirks_v()]) }
pub fn leaf(b: &[u8], mode: i64, o: &Opts) -> Kind { lib("ConcreteParseLeaf", vec![V::Int(0), bytearray(b), V::Int(mode), V::Int(o.conv), V::Int(o.tab), V::Int(o.first), V::Int(o.enc), o.quirks_v()]) }
pub fn safe_string(b: &[u8]) -> Kind { lib("SafeString", vec![V::Int(0), bytearray(b)]) }
pub fn create() -> Kind { lib("CreateParserSession", vec![]) }
pub fn destroy(s: i64) -> Kind { lib("DestroyParserSession", vec![V::Int(s)]) }
pub fn is_empty(tok: &str) -> Kind { lib("TokenIsEmpty", vec![sym(tok)]) }
pub fn roundtrip(v: V) -> Kind { lib("RoundTripTest", vec![v]) }
pub fn abstract_(node: V, q: &[bool; 3], kind: &str) -> Kind { lib("Abstract", vec![node, quirks_v(q), sym(kind)]) }
pub fn nat(api: &str, b: &[u8], o: &Opts, mode: i64) -> Kind { Kind::Nat { api: api.into(), bytes: b.to_vec(), opts: o.clone(), mode } }

// ---- text form
fn join<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { if v.is_empty() { "-".into() } else { v.iter().map(f).collect::<Vec<_>>().join(",") } }
impl Scn {
    pub fn to_text(&self) -> String {
        let mut s = format!("cpsim-replay 1\ncheck {}\nseed {}\nrand {}\nclock {}\nshift {}\nmem {}\n", self.check, self.seed, self.rand, self.clock, self.shift, self.mem as u8);
        for (k, v) in &self.env { s += &format!("env {k}={v}\n") }
        if !self.knob.is_empty() { s += &format!("knob {}\n", join(&self.knob, |x| x.to_string())) }
        if let Some(c) = &self.conc { s += &format!("conc {} {} {} {}\n", c.n, c.slice, c.first, join(&c.switches, |x| format!("{}:{}", x.0, x.1))) }
        for st in &self.steps {
            let ab = match &st.abort { Abort::No => "none".into(), Abort::Tick(t) => format!("tick:{t}"), Abort::Poll(t) => format!("poll:{t}") };
            let lf = join(&st.lf, |x| format!("{}:{}", x.0, match &x.1 { LFault::Dead => "dead".into(), LFault::Transient(c) => format!("err{c}") }));
            s += &format!("step thread={} abort={} link={} deny={}\n", st.thread, ab, lf, st.deny as u8);
            for f in &st.files {
                s += &format!("file {} open={} reads={} size={} stat={} dir={} content={}\n", hex(f.path.as_bytes()), join(&f.open_err, |x| x.to_string()),
                    join(&f.reads, |r| match r { RFault::Short(n) => format!("short{n}"), RFault::Eintr => "eintr".into(), RFault::Err(e) => format!("err{e}"), RFault::Eof => "eof".into() }),
                    f.size_lie.map(|x| x.to_string()).unwrap_or("-".into()), f.stat_err, f.dir as u8, hex(&f.content));
            }
            match &st.kind {
                Kind::Lib { func, args } => s += &format!("lib {} {}\n", func, text(args)),
                Kind::Nat { api, bytes, opts, mode } => s += &format!("nat {} {} {} {} {} {}{}{} {} {}\n", api, opts.conv, opts.tab, opts.first, opts.enc, opts.quirks[0] as u8, opts.quirks[1] as u8, opts.quirks[2] as u8, mode, if bytes.is_empty() { "-".into() } else { hex(bytes) }),
            }
        }
        s + "end\n"
    }
    pub fn from_text(t: &str) -> Option<Scn> {
        let mut s = Scn::new("", 0);
        let spl = |x: &str| -> Vec<String> { if x == "-" { vec![] } else { x.split(',').map(|y| y.to_string()).collect() } };
        let mut cur: Option<Step> = None;
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "check" => s.check = r.into(), "seed" => s.seed = r.parse().ok()?, "rand" => s.rand = r.parse().ok()?,
                "clock" => s.clock = r.parse().ok()?, "shift" => s.shift = r.parse().ok()?, "mem" => s.mem = r == "1",
                "env" => { let (a, b) = r.split_once('=')?; s.env.push((a.into(), b.into())) }
                "knob" => s.knob = spl(r).iter().filter_map(|x| x.parse().ok()).collect(),
                "conc" => { let f: Vec<&str> = r.split(' ').collect(); s.conc = Some(Conc { n: f[0].parse().ok()?, slice: f[1].parse().ok()?, first: f[2].parse().ok()?,
                    switches: spl(f[3]).iter().filter_map(|x| { let (a, b) = x.split_once(':')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect() }) }
                "step" => {
                    let mut st = Step::new(create());
                    for f in r.split(' ') {
                        let (a, b) = f.split_once('=')?;
                        match a {
                            "thread" => st.thread = b.parse().ok()?, "deny" => st.deny = b == "1",
                            "abort" => st.abort = match b.split_once(':') { None => Abort::No, Some(("tick", n)) => Abort::Tick(n.parse().ok()?), Some((_, n)) => Abort::Poll(n.parse().ok()?) },
                            "link" => st.lf = spl(b).iter().filter_map(|x| { let (i, c) = x.split_once(':')?; Some((i.parse().ok()?, if c == "dead" { LFault::Dead } else { LFault::Transient(c[3..].parse().ok()?) })) }).collect(),
                            _ => {}
                        }
                    }
                    cur = Some(st)
                }
                "file" => {
                    let mut f = SimFile::default();
                    for (i, p) in r.split(' ').enumerate() {
                        if i == 0 { f.path = String::from_utf8(unhex(p)?).ok()?; continue }
                        let (a, b) = p.split_once('=')?;
                        match a {
                            "open" => f.open_err = spl(b).iter().filter_map(|x| x.parse().ok()).collect(),
                            "reads" => f.reads = spl(b).iter().filter_map(|x| Some(if x == "eintr" { RFault::Eintr } else if x == "eof" { RFault::Eof } else if let Some(n) = x.strip_prefix("short") { RFault::Short(n.parse().ok()?) } else { RFault::Err(x[3..].parse().ok()?) })).collect(),
                            "size" => f.size_lie = b.parse().ok(), "stat" => f.stat_err = b.parse().ok()?, "dir" => f.dir = b == "1", "content" => f.content = unhex(b)?, _ => {}
                        }
                    }
                    cur.as_mut()?.files.push(f)
                }
                "lib" => { let (a, b) = r.split_once(' ')?; let mut st = cur.take()?; st.kind = Kind::Lib { func: a.into(), args: parse_text(b)? }; s.steps.push(st) }
                "nat" => {
                    let f: Vec<&str> = r.split(' ').collect();
                    let q: Vec<bool> = f[5].chars().map(|c| c == '1').collect();
                    let mut st = cur.take()?;
                    st.kind = Kind::Nat { api: f[0].into(), opts: Opts { conv: f[1].parse().ok()?, tab: f[2].parse().ok()?, first: f[3].parse().ok()?, enc: f[4].parse().ok()?, quirks: [q[0], q[1], q[2]] }, mode: f[6].parse().ok()?, bytes: if f[7] == "-" { vec![] } else { unhex(f[7])? } };
                    s.steps.push(st)
                }
                _ => {}
            }
        }
        Some(s)
    }
}
