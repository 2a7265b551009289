//! Seeded generation: program text, options, requests, faults.
use crate::scn::*;
use crate::seam::{RFault, SimFile};
use crate::value::*;
use crate::wstp::{Abort, LFault};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Rng { let mut r = Rng(seed ^ salt.wrapping_mul(0x9e3779b97f4a7c15)); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 { crate::seam::splitmix(&mut self.0) }
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u() >> 11) as usize % n } }
    pub fn r(&mut self, lo: usize, hi: usize) -> usize { lo + self.n(hi - lo + 1) }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
    pub fn ps(&mut self, v: &[&'static str]) -> &'static str { v[self.n(v.len())] }
    /// Log-uniform in 0..=max.
    pub fn log(&mut self, max: u64) -> u64 { let b = 64 - max.leading_zeros() as usize; let k = self.r(0, b); (self.u() & ((1u128 << k) - 1) as u64).min(max) }
}
static SEEDS: &str = include_str!("../corpus/seeds.txt");
pub fn seeds() -> &'static Vec<Vec<u8>> {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    S.get_or_init(|| SEEDS.lines().filter(|l| l.len() >= 2).map(|l| unj(&l[1..l.len() - 1])).collect())
}
/// All long names; one as an operator, bracket or letter between others.
fn named(r: &mut Rng) -> String {
    static N: &str = include_str!("../corpus/names.txt");
    use std::sync::OnceLock;
    static S: OnceLock<Vec<&'static str>> = OnceLock::new();
    let v = S.get_or_init(|| N.lines().collect());
    let n = *r.pick(v);
    let n = format!("\\[{n}]");
    match r.n(6) { 0 => format!("a{n}b"), 1 => format!("{n}a"), 2 => format!("a{n}"), 3 => format!("a{n}b{n}c"), 4 => format!("\"{n}\""), _ => n }
}
/// One short construct.
pub fn tiny(r: &mut Rng) -> Vec<u8> {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    let v = S.get_or_init(|| seeds().iter().filter(|b| b.len() <= 14).cloned().collect());
    // issues with every part an issue may have
    if r.p(1, 8) { return r.ps(&["\"\\<a\\>\"", "\"\\<\"", "\"\\q\"", "\\[Foo]", "\"\\[Foo]\"", "\\<", "!!a", "\"a\rb\"", "\u{e9}"]).as_bytes().to_vec() }
    if r.p(1, 8) { named(r).into_bytes() } else { r.pick(v).clone() }
}
fn unj(s: &str) -> Vec<u8> {
    let c: Vec<char> = s.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
                'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), 'b' => o.push('\x08'), 'f' => o.push('\x0c'),
                'u' => { let h: String = c[i + 1..(i + 5).min(c.len())].iter().collect(); i += 4;
                    let mut n = u32::from_str_radix(&h, 16).unwrap_or(63);
                    if (0xd800..0xdc00).contains(&n) && i + 6 < c.len() && c[i + 1] == '\\' { let l: String = c[i + 3..i + 7].iter().collect(); i += 6; n = 0x10000 + ((n - 0xd800) << 10) + (u32::from_str_radix(&l, 16).unwrap_or(0xdc00).wrapping_sub(0xdc00) & 0x3ff) }
                    o.push(char::from_u32(n).unwrap_or('?')) }
                x => o.push(x),
            }
        } else { o.push(c[i]) }
        i += 1;
    }
    o.into_bytes()
}
pub const BITS: [&str; 153] = [
    "a", "b", "x", "foo", "Ctx`sym", "$v", "α", "é", "日本", "𝒳", "1", "0", "123", "1.5", "1.5`20", "16^^ff", "2^^101.1`3", "1*^3", "\"s\"", "\"a\\\"b\"", "\"é\\n\"", "\"\"", "#", "#1", "##2", "#name", "%", "%%", "%5",
    "_", "__", "___", "a_", "_b", "a_b", "a__b", "a_.", "a_:", "_.", "+", "-", "*", "/", "^", "@", "@@", "@@@", "/@", "//@", "//", "&", "&&", "||", "!", "!!", "==", "!=", "===", "=!=", "<", ">", "<=", ">=", "<<", ">>", ">>>", "->", ":>", ":=", "=", "^=", "^:=", "/:", "=.", "/;", "/.", "//.", "|", "~", "~~", "<>", ";", ";;", ",", ".", "..", "...", "?", "'", "::", ":", "[", "]", "[[", "]]", "(", ")", "{", "}", "<|", "|>", "\\(", "\\)", "\\!", "\\^", "\\_", "\\/", "\\`", "\\*",
    "(*", "*)", "(* c *)", "\"", "\\[Alpha]", "\\[Integral]", "\\[DifferentialD]", "\\[InvisibleTimes]", "\\[Rule]", "\\[RawDoubleQuote]", "\\[Bad]", "\\[", "\\:03b1", "\\:", "\\.41", "\\101", "\\|01d4b3", "∫", "\u{f765}", "\u{f7d9}", "\u{2062}", "→", "\\\n", "\\\r\n", "\\\r", "\n", "\r\n", "\r", "\t", " ", "  ", "\u{a0}", "\u{0}", "\u{7f}", "\u{feff}", "\u{e001}", "\u{200b}", "#!", "--", "++", "\\[LeftDoubleBracket]", "\\[RightDoubleBracket]", "\\[LeftFloor]", "\\[Del]"];
const SYMS: [&str; 12] = ["a", "b", "x", "yy", "foo", "Bar`baz", "$q", "α", "é", "f", "g", "Needs"];
const INF: [&str; 42] = ["+", " - ", "*", " ", "/", "^", "@", "@@", "@@@", "/@", "//", "&&", "||", "==", "!=", "<", ">", "<=", "===", "->", ":>", ":=", "=", "/;", "/.", "|", "~f~", "~~", "<>", ";", ";;", ",", ".", "?", "::", ":", "\\[Rule]", "→", "\n", "; ", "\\[And]", "\\[InvisibleTimes]"];
fn ws(r: &mut Rng, o: &mut String) {
    match r.n(14) { 0 | 1 => o.push(' '), 2 => o.push('\t'), 3 => o.push('\n'), 4 => o.push_str("\r\n"), 5 => o.push_str("(* c *)"), 6 => o.push_str("\\\n"), 7 => if r.p(1, 4) { o.push('\r') }, 8 => if r.p(1, 3) { o.push_str("(* a\n\tb (* n *) *)") }, _ => {} }
}
fn atom(r: &mut Rng, o: &mut String) {
    match r.n(18) {
        0..=5 => o.push_str(r.ps(&SYMS)),
        6 | 7 => o.push_str(&r.n(1000).to_string()),
        8 => o.push_str(r.ps(&["1.5", "2.", ".5", "1.5`3", "16^^ff", "1*^2", "2^^1.1", "3`", "1``5", "36^^zZ"])),
        9 => o.push_str(r.ps(&["\"s\"", "\"\"", "\"a\\\"b\"", "\"é\tx\"", "\"l1\nl2\"", "\"\\[Alpha]\\:0041\"", "\"a\\\nb\"", "\"a\\\r\n  b\"", "\"\\<x\\>\"", "\"\r\n\""])),
        10 => o.push_str(r.ps(&["#", "##", "#1", "#name", "##3", "#\"k\""])),
        11 => o.push_str(r.ps(&["_", "__", "___", "a_", "a_b", "_b", "a__", "a___b", "_.", "a_.", "x_:1", "a:_"])),
        12 => o.push_str(r.ps(&["%", "%%", "%12"])),
        13 => o.push_str(r.ps(&["\\[Alpha]", "\\[Pi]x", "\\:03b1", "\\.41b", "日本", "𝒳", "\\[Infinity]"])),
        14 => o.push_str(r.ps(&["ab\\\ncd", "12\\\n34", "\\(x\\^2\\)", "\\!\\(a\\_b\\)", "\\(a\\/b\\)", "\\!\\(\\*SuperscriptBox[x,2]\\)"])),
        15 => o.push_str(r.ps(&["\\[Integral]f \\[DifferentialD]x", "∫x \u{f74c}x", "\\[Sum]a", "\\[Del]f"])),
        _ => o.push_str(r.ps(&SYMS)),
    }
}
pub fn expr(r: &mut Rng, d: usize, o: &mut String) {
    if d == 0 { return atom(r, o) }
    match r.n(16) {
        0..=4 => { let k = r.r(1, 3); expr(r, d - 1, o); let same = r.p(2, 3); let mut op = r.ps(&INF); for _ in 0..k { ws(r, o); o.push_str(op); ws(r, o); expr(r, d - 1, o); if !same { op = r.ps(&INF) } } }
        5 => { o.push_str(r.ps(&["-", "+", "!", "!!", "--", "++", "\\[Not]", "<<", "@", ";;", "\\[Del]"])); expr(r, d - 1, o) }
        6 => { expr(r, d - 1, o); o.push_str(r.ps(&["&", "!", "!!", "'", "++", "--", "..", "...", "=.", "''", ";", ",", ";;"])) }
        7..=9 => { expr(r, d - 1, o); let (a, b) = *r.pick(&[("[", "]"), ("[", "]"), ("[[", "]]"), ("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]"), ("::[", "]"), ("[ [", "] ]")]); o.push_str(a); args(r, d, o); o.push_str(b) }
        10 => { o.push('{'); args(r, d, o); o.push('}') }
        11 => { o.push_str("<|"); args(r, d, o); o.push_str("|>") }
        12 => { o.push('('); ws(r, o); expr(r, d - 1, o); ws(r, o); o.push(')') }
        13 => { let (a, b) = *r.pick(&[("\\[LeftFloor]", "\\[RightFloor]"), ("\\[LeftAngleBracket]", "\\[RightAngleBracket]"), ("\\(", "\\)"), ("⌈", "⌉"), ("\\[LeftBracketingBar]", "\\[RightBracketingBar]")]); o.push_str(a); expr(r, d - 1, o); o.push_str(b) }
        14 => { o.push_str(r.ps(&["Begin[\"`p`\"]", "BeginPackage[\"P`\"]", "Needs[\"x`\"]", "(* :Title: *)", "f[x_] := "])); ws(r, o); expr(r, d - 1, o); o.push('\n'); if r.p(1, 2) { o.push_str("End[]") } }
        _ => atom(r, o),
    }
}
fn args(r: &mut Rng, d: usize, o: &mut String) {
    let k = r.n(4);
    for i in 0..k { if i > 0 { o.push(','); } ws(r, o); if r.p(9, 10) { expr(r, d - 1, o) } }
}
/// Program text, valid UTF-8 unless `damage`.
pub fn source(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut b: Vec<u8> = match r.n(12) {
        10 => { let mut v = String::new(); for _ in 0..r.r(1, 4) { v.push_str(&named(r)); v.push_str(r.ps(&["", "\n", " ", ";", "+", ","])) } v.into_bytes() }
        11 => { let mut v = vec![]; for _ in 0..r.r(1, 6) { v.extend(tiny(r)); v.extend(r.ps(&["", "", "\n", " ", ";", ","]).bytes()) } v }
        0 | 1 => r.pick(seeds()).clone(),
        2 => { let mut v = vec![]; for _ in 0..r.r(2, 5) { v.extend(r.pick(seeds()).clone()); v.extend(r.pick(&["\n", " ", "\r\n", ";\n", ", ", "+"]).bytes()) } v }
        3 | 4 => { let mut v = String::new(); for _ in 0..r.r(1, 14) { v.push_str(r.ps(&BITS)); if r.p(1, 3) { v.push(' ') } } v.into_bytes() }
        5..=8 => { let mut v = String::new(); for _ in 0..r.r(1, 3) { let d = r.r(1, 4); expr(r, d, &mut v); v.push_str(r.ps(&["\n", "\n\n", ";\n", "\r\n", "", "\\\n", "\t"])) } v.into_bytes() }
        _ => { let mut v = String::new(); let d = r.r(1, 3); expr(r, d, &mut v); let s = r.pick(seeds()).clone(); let mut b = v.into_bytes(); let at = cut(&b, r.n(b.len() + 1)); b.splice(at..at, s); b }
    };
    if r.p(1, 6) && !b.is_empty() {
        // near-duplicate: drop or double one character
        let at = cut(&b, r.n(b.len()));
        let mut e = at + 1; while e < b.len() && b[e] & 0xc0 == 0x80 { e += 1 }
        if r.p(1, 2) { b.drain(at..e); } else { let x = b[at..e].to_vec(); b.splice(at..at, x); }
    }
    if r.p(1, 8) { let at = cut(&b, r.n(b.len() + 1)); b.splice(at..at, r.ps(&BITS).bytes()); }
    if r.p(1, 8) { for _ in 0..r.r(1, 3) { let at = cut(&b, r.n(b.len() + 1)); let c = anychar(r); let mut e = [0; 4]; b.splice(at..at, c.encode_utf8(&mut e).bytes()); } }
    if r.p(1, 12) { let n = cut(&b, r.n(b.len() + 1)); b.truncate(n) }
    if r.p(1, 25) { let n = *r.pick(&[8, 16, 32, 64, 128, 256]); exactly(r, &mut b, n) }
    if b.len() > max { let n = cut(&b, max); b.truncate(n) }
    b
}
/// Text that repeats and nests a few pieces over and over, about n bytes of it.
pub fn repeated(r: &mut Rng, n: usize) -> Vec<u8> {
    let piece = |r: &mut Rng| -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..r.r(1, 3) {
            match r.n(7) { 0 | 1 => v.extend(tiny(r)), 2 => { let mut s = String::new(); expr(r, 1, &mut s); v.extend(s.into_bytes()) } 3 => v.extend(r.ps(&INF).bytes()), 4 => v.extend(quirky(r)), _ => v.extend(r.ps(&BITS).bytes()) }
            if v.len() > 40 { let k = cut(&v, 40); v.truncate(k) }
        }
        if v.is_empty() { v.push(b'a') }
        v
    };
    let pair = |r: &mut Rng| -> (Vec<u8>, Vec<u8>) {
        if r.p(1, 2) { let (a, b) = *r.pick(&[("(", ")"), ("(", ")"), ("{", "}"), ("f[", "]")]); return (a.into(), b.into()) }
        let (a, b) = *r.pick(&[("(", ")"), ("{", "}"), ("f[", "]"), ("f[[", "]]"), ("<|", "|>"), ("(*", "*)"), ("\\(", "\\)"), ("\\[LeftFloor]", "\\[RightFloor]"), ("⌈", "⌉"), ("\\[LeftBracketingBar]", "\\[RightBracketingBar]"), ("f[a,", ",b]"), ("-(", ")"), ("x/(", ")"), ("\\!\\(", "\\)"), ("\"", "\""), ("\\(a\\_", "\\)"), ("::[", "]"), ("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]")]);
        (a.into(), b.into())
    };
    let fill = |r: &mut Rng, n: usize, parts: &[Vec<u8>]| -> Vec<u8> { let mut v = vec![]; let alt = r.p(1, 2); let mut i = 0; while v.len() < n { v.extend(&parts[if alt { r.n(parts.len()) } else { i % parts.len() }]); i += 1 } v };
    let k = r.r(1, 3);
    let parts: Vec<Vec<u8>> = (0..k).map(|_| piece(r)).collect();
    let mut b = match r.n(6) {
        0 | 1 => fill(r, n, &parts),
        2 | 3 => {
            // nested, closed or not, something inside, between or after
            let ps: Vec<_> = (0..r.r(1, 2)).map(|_| pair(r)).collect();
            let per = ps[0].0.len() + ps[0].1.len() + if r.p(1, 2) { parts[0].len() } else { 0 };
            let d = (n / per.max(1)).clamp(1, 1500);
            let (close, sep) = (*r.pick(&[0, 1, 1, 1, 1, 2]), per > ps[0].0.len() + ps[0].1.len());
            let mut v = vec![];
            for i in 0..d { v.extend(&ps[i % ps.len()].0); if sep { v.extend(&parts[0]) } }
            v.extend(&parts[k - 1]);
            for i in (0..if close == 0 { 0 } else if close == 1 { d } else { r.n(d + 1) }).rev() { v.extend(&ps[i % ps.len()].1); if sep && close == 2 { v.extend(&parts[k - 1]) } }
            v
        }
        4 => { let (a, z) = pair(r); let mut v = a; v.extend(fill(r, n, &parts)); if r.p(2, 3) { v.extend(z) } v }
        _ => {
            // many short nests
            let (a, z) = pair(r);
            let d = r.r(1, 12);
            let mut u = vec![]; for _ in 0..d { u.extend(&a) } u.extend(&parts[0]); for _ in 0..d { u.extend(&z) } u.extend(&parts[k - 1]);
            fill(r, n, &[u])
        }
    };
    // something before or after it all
    if r.p(1, 2) { let x = if r.p(1, 3) { piece(r) } else { r.ps(&["-", "-", "-", "!", "+", "a/", "a ", "1-", "f@", "x_:", "a=", "--", "\"", "(*", "{", "a~", "\\[Integral]"]).into() }; b.splice(0..0, x); }
    if r.p(1, 4) { let x = if r.p(1, 2) { piece(r) } else { r.ps(&["&", "!", "'", "=.", "..", "++", ";", "//f", "^2", "[x]", "\"", "\\", "]", "}"]).into() }; b.extend(x) }
    if r.p(1, 6) { damage(r, &mut b); }
    b
}
/// Exactly n bytes, or one more or less: the sizes at which buffers and blocks end.
pub fn exactly(r: &mut Rng, b: &mut Vec<u8>, n: usize) {
    let n = n + r.n(3) - 1;
    if b.len() > n { let k = cut(b, n); b.truncate(k) }
    let k = n - b.len();
    let at = if r.p(1, 2) { b.len() } else { 0 };
    let pad = if k >= 6 && r.p(1, 2) { format!(" (*{}*)", "-".repeat(k - 5)) } else if k > 1 { format!("{}\n", "q".repeat(k - 1)) } else { ";".repeat(k) };
    b.splice(at..at, pad.into_bytes());
}
fn cut(b: &[u8], mut i: usize) -> usize { while i < b.len() && b[i] & 0xc0 == 0x80 { i -= 1 } i }
/// Any character, most often one at an edge of a range of the encoding.
fn anychar(r: &mut Rng) -> char {
    loop {
        let mut q = Rng::new(r.u(), 3);
        let mut low = |n: u32| -> u32 { (0..n).fold(0, |a, _| a << 6 | { let x = q.n(64) as u32; *q.pick(&[0, 0x3f, 0x1f, 0x20, 0xf, 0x10, x]) }) };
        let c = match r.n(7) { 0 => r.n(0x80) as u32, 1 => 0xc0 + r.n(2) as u32 * 0x700 | low(1), 2 => 0x800 | low(1) | (r.n(32) as u32) << 6, 3 => (r.n(16) as u32) << 12 | low(2), 4 => 0x10000 + low(2), 5 => (r.n(17) as u32) << 16 | low(2), _ => r.n(0x110000) as u32 };
        if let Some(c) = char::from_u32(c) { return c }
    }
}
/// A few bytes that are, or nearly are, one encoded character.
fn nearly(r: &mut Rng) -> Vec<u8> {
    if r.p(1, 2) {
        // characters cut off right before another problem: each must end where the next begins
        let mut v = vec![];
        for _ in 0..r.r(1, 2) {
            let x: &[u8] = *r.pick(&[&b"\xc2"[..], b"\xdf", b"\xe0", b"\xe0\xa0", b"\xe0\xbf", b"\xe0\xa4", b"\xe1", b"\xe1\x80", b"\xec\xbf", b"\xed", b"\xed\x80", b"\xed\x9f", b"\xed\xa0", b"\xed\xbf", b"\xee\x80", b"\xef", b"\xef\xbb", b"\xef\xbf", b"\xf0", b"\xf0\x90", b"\xf0\xbf\x80", b"\xf0\x9f\x98", b"\xf1", b"\xf1\x80", b"\xf1\x80\xbf", b"\xf3\xbf", b"\xf3\xbf\xbf", b"\xf4", b"\xf4\x80", b"\xf4\x8f\xbf", b"\x80", b"\xff", b"\xc0"]);
            v.extend(x);
        }
        v.extend(*r.pick(&[&b"\xef\xbb\xbf"[..], b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\xed\xb0\x80", b"\xed\xbf\xbf", b"\xc3\xa9", b"a", b"\xe2\x88\x91", b"\""]));
        return v
    }
    let mut v = vec![*r.pick(&[0xc0u8, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, 0x80, 0xbf])];
    for _ in 0..r.n(5) { v.push(*r.pick(&[0x7fu8, 0x80, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xbf, 0xc0, 0x20, 0xe2])) }
    v
}
/// What a damaged disk or transfer leaves of a file.
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) -> &'static str {
    if b.is_empty() { b.push(r.u() as u8); return "garbage" }
    match r.n(11) {
        9 | 10 => { let i = if r.p(1, 3) { b.len() } else { r.n(b.len() + 1) }; let x = nearly(r); b.splice(i..i, x); "invalid encoding" }
        0 => { let n = r.n(b.len()); b.truncate(n); "truncation" }
        1 => { for _ in 0..r.r(1, 3) { let i = r.n(b.len()); b[i] ^= 1 << r.n(8) } "bit flip" }
        2 => { let i = r.n(b.len()); let e = (i + r.r(1, 16)).min(b.len()); b.drain(i..e); "lost block" }
        3 => { let i = r.n(b.len()); let e = (i + r.r(1, 16)).min(b.len()); for x in &mut b[i..e] { *x = 0 } "zeroed block" }
        4 => { let i = r.n(b.len()); let e = (i + r.r(1, 8)).min(b.len()); for x in &mut b[i..e] { *x = r.u() as u8 } "garbage block" }
        5 => { let i = r.n(b.len() + 1); let x: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\xc0\xaf", b"\xe0\x80\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\x80", b"\xed\xbf\xbf", b"\xef\xbf\xbe", b"\xf5\x80\x80\x80", b"\xe2\x28\xa1"]); b.splice(i..i, x.iter().copied()); "invalid encoding" }
        6 => { let i = r.n(b.len()); let e = (i + r.r(1, 32)).min(b.len()); let x = b[i..e].to_vec(); b.splice(i..i, x); "doubled block" }
        7 => { let i = r.n(b.len()); b.rotate_left(i); "misplaced block" }
        _ => { let n = b.len() - r.n(b.len().min(4)); b.truncate(n); b.extend(r.pick(&[&b"\xe2"[..], b"\\", b"\"", b"(*", b"\\[", b"{", b"\r", b"\xf0\x9f", b"(", b"[\"", b"\\:03", b"a\\\n"]).iter()); "torn tail" }
    }
}
/// Another text of the same length: what a cache that looks at the size, the place or a part of the text takes for the same.
pub fn twin(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let ascii: Vec<usize> = (0..b.len()).filter(|i| b[*i] < 0x80).collect();
    if ascii.is_empty() { return b }
    for _ in 0..r.r(1, 4) {
        let i = *r.pick(&ascii);
        match r.n(4) {
            0 => { let j = *r.pick(&ascii); b.swap(i, j) }
            1 => b[i] = *r.pick(b"\n\n\"([{a; "),
            2 => { for k in &ascii { if b[*k] == b'\n' && r.p(1, 2) { b[*k] = b' ' } } }
            _ => { let j = *r.pick(&ascii); if b[i.min(j)..=i.max(j)].iter().all(|c| *c < 0x80) { b[i.min(j)..=i.max(j)].rotate_left(1) } }
        }
    }
    b
}
pub fn opts(r: &mut Rng) -> Opts {
    if r.p(1, 3) { return Opts::default() }
    Opts { conv: r.n(2) as i64, tab: *r.pick(&[1, 2, 3, 4, 4, 4, 8, 100]), first: if r.p(3, 4) { 0 } else { r.n(3) as i64 }, enc: if r.p(3, 4) { 0 } else { 1 }, quirks: [r.p(2, 3), r.p(1, 3), r.p(1, 3)] }
}
/// Inputs on which the quirk settings matter.
/// Text whose parse depends on every option.
pub fn sensitive(r: &mut Rng) -> Vec<u8> {
    let mut s = String::from(r.ps(&["", "#!x y\n", "#!\n"]));
    for _ in 0..r.r(1, 5) { s.push_str(r.ps(&["\t\ta", "\"\tx\"", "a\tb", "a@b@c", "a b*c/d", "a*b c", "a@@@b", "\"é\"", "é", "\\[IndentingNewLine]", "\"\n\"", "a\\\n\tb", "-a/b"])); s.push_str(r.ps(&["\n", "\n", ";", "\n\t", "\r\n"])) }
    s.into_bytes()
}
pub fn quirky(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..r.r(1, 3) {
        s.push_str(r.ps(&["a<>StringJoin@b", "a@b@c<>d", "f@g<>h@i", "-a*b", "a*b/c*d", "-(a*b)*c", "a b/c", "f@@@g", "a @@@ b @@@ c", "2*a/b", "-a b c", "a/b/c", "x@@@y;z<>w@v", "a<>b@c<>d", "a/(-b)", "a*-b", "1/2 x"]));
        s.push_str(r.ps(&["\n", ";", " ", "+"]));
    }
    s.into_bytes()
}
const NAMES: [&str; 24] = ["Alpha", "Beta", "Gamma", "Rule", "Pi", "Infinity", "Integral", "DifferentialD", "InvisibleTimes", "And", "Or", "Not", "Element", "LeftFloor", "RightFloor", "CapitalOmega", "Aleph", "RawDot", "NewLine", "Bad", "NotALongName", "ScriptX", "DoubleStruckA", "Equal"];
/// Inputs that dwell on one part of the parser: all callers of a scenario then meet in the same code.
pub fn hot(r: &mut Rng, family: usize) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..r.r(1, 7) {
        match family % 9 {
            0 => { s.push_str("\\["); s.push_str(r.ps(&NAMES)); s.push(']') }
            1 => { let q = quirky(r); s.push_str(&String::from_utf8_lossy(&q)) }
            2 => s.push_str(r.ps(&["\"a\"", "\"b\\\"c\"", "(* x *)", "(* y\n*)", "\"l1\nl2\"", "\"", "(*", "\"é\\[Alpha]\\:03b1\"", "\"\\\n\""])),
            3 => s.push_str(r.ps(&["1", "16^^ff", "1.5`20", "2^^1012", "1*^-3", "37^^1", "1``", "1.2``3", "123456789", ".5", "1..2", "0^^1"])),
            4 => s.push_str(r.ps(&["a&!", "!!x", "\u{200b}", "\u{e001}", "a\u{a0}b", "\r", "\\[Bad]", "#1&[x]", "a::b::c::d", "##[x]", "x.1", "-\u{2062}", "a--b", "\\.", "\\:1", "]", "*)"])),
            5 => s.push_str(r.ps(&["\\(x\\^2\\)", "\\!\\(a\\)", "\\(a\\_b\\%c\\)", "\\(a\\/b\\)", "\\`a", "\\(\\@x\\)", "\\!\\(\\*SqrtBox[x]\\)"])),
            6 => s.push_str(r.ps(&["{", "(a", "f[x", "<|a->1", "}", "]", "[[1", "{a,b}\n\nc", "f[\n\ng[x]\n", "(*", ")"])),
            7 => s.push_str(r.ps(&["a\\\nb", "1\\\n2", "\"x\\\ny\"", "\t", "\"\t\"", "\r\n", "\\\r\n", "(*\n\t*)", "\"\n\"", "a\\\r\n\tb"])),
            _ => s.push_str(r.ps(&["a+b-c", "a b c", "a;;b;;c", "a;b;", "a/:b:=c", "a~f~b", "x_:1", "a__b", "a=.", "a>>b", "a<b>c", "∫f \u{f74c}x", "a->b:>c", "!a", "a!", "a'", "p:q_:r"])),
        }
        if r.p(1, 3) { s.push_str(r.ps(&[" ", ";", "\n", "+", ","])) }
    }
    s.into_bytes()
}
pub const APIS: [&str; 10] = ["tokenize", "cst", "ast", "leaf", "safe", "tokenize", "cst", "ast", "cst1", "ast1"];
pub fn native_step(r: &mut Rng, max: usize) -> Kind {
    let mut b = if r.p(1, 4) { quirky(r) } else { source(r, max) };
    if r.p(1, 10) { damage(r, &mut b); }
    let o = opts(r);
    let mut api = *r.pick(&APIS);
    if std::str::from_utf8(&b).is_ok() && r.p(1, 4) { api = r.ps(&["tokenize_str", "cst_str", "ast_str"]) }
    if b.contains(&0xef) && api.ends_with("_str") { api = "cst" }
    nat(api, &b, &o, r.n(3) as i64)
}
pub const EMPTY_TOKS: [&str; 7] = ["EndOfFile", "Token`Fake`ImplicitTimes", "Token`Error`ExpectedOperand", "Token`Fake`ImplicitNull", "Token`Fake`ImplicitOne", "Token`Fake`ImplicitAll", "Token`Error`PrefixImplicitNull"];
pub const TOKS: [&str; 18] = ["EndOfFile", "Token`Plus", "Symbol", "Integer", "Token`Fake`ImplicitTimes", "Token`Error`ExpectedOperand", "Token`Fake`ImplicitNull", "Token`Fake`ImplicitOne", "Token`Fake`ImplicitAll", "String", "Token`Comma", "Real", "Token`Error`UnterminatedString", "Token`Newline", "Whitespace", "Token`Comment", "Token`OpenSquare", "Token`Error`PrefixImplicitNull"];
pub fn path(r: &mut Rng) -> String {
    if r.p(1, 2) { return format!("/simfs/{}", r.pick(&["f.wl", "init.m", "a b.wl", "dir/x.wl", "é.wl", "..hidden", "dir/../y.wl", "long-name-with-many-characters.wl", "x", "%7e.wl"])) }
    // names that clean-up code likes to touch
    let n = match r.n(4) {
        0 => format!("/simfs/{}", r.pick(&["f.wl ", " f.wl", "f.wl\n", "f.wl\t", "a  b.wl", "f.wl.", "F.WL", ".wl", "-", "-rf", "f.wl~", "~f.wl", "$HOME.wl", "*.wl", "f?.wl", "a:b.wl", "file:x.wl", "a\\b.wl", "\"q\".wl", "'q'.wl", "a,b;c.wl", "#f.wl", "f.wl#2", "f%20.wl", "f.wl.gz", "f"])),
        1 => format!("/simfs/{}", r.pick(&["./f.wl", "a//b.wl", "a/./b.wl", "a/b/../c.wl", "a/../../simfs/z.wl", "deep/er/and/deep/er/f.wl", "../simfs/f.wl", "//f.wl", "dir.wl/f"])),
        2 => r.ps(&["f.wl", "./f.wl", "../simfs/f.wl", "dir/f.wl", "~/f.wl", " f.wl", "é.wl", "~", "-", "$F", "file:f.wl", "a b.wl"]).to_string(),
        _ => format!("/simfs/{}", match r.n(4) { 0 => "e\u{301}.wl".into(), 1 => "日本/𝒳.wl".into(), 2 => "x".repeat(r.r(200, 255)), _ => "d/".repeat(r.r(20, 100)) + "f.wl" }),
    };
    n
}
pub fn file(r: &mut Rng, p: &str, content: Vec<u8>) -> SimFile { let _ = r; SimFile { path: p.into(), content, ..SimFile::default() } }
/// A well-formed request that the library serves.
pub fn request(r: &mut Rng, max: usize) -> Step {
    let mut b = if r.p(1, 5) { quirky(r) } else { source(r, max) };
    if r.p(1, 12) { damage(r, &mut b); }
    let mut o = opts(r);
    match r.n(20) {
        0..=5 => Step::new(parse_bytes("ConcreteParseBytes", &b, &o)),
        6..=8 => Step::new(parse_bytes("TokenizeBytes", &b, &o)),
        9 | 10 => { let p = path(r); let f = file(r, &p, b); let mut s = Step::new(parse_file("ConcreteParseFile", &p, &o)); s.files.push(f); s }
        11 => { let p = path(r); let f = file(r, &p, b); let mut s = Step::new(parse_file("TokenizeFile", &p, &o)); s.files.push(f); s }
        12..=14 => Step::new(leaf(&b, r.n(3) as i64, &o)),
        15 => Step::new(safe_string(&b)),
        16 => Step::new(create()),
        17 => Step::new(destroy(r.n(5) as i64)),
        18 => Step::new(is_empty(r.ps(&TOKS))),
        _ => { o.enc = 0; let _ = &o; Step::new(parse_bytes("ConcreteParseBytes", &b, &o)) }
    }
}
pub fn read_faults(r: &mut Rng, len: usize, hard: bool) -> Vec<RFault> {
    let mut v = vec![];
    for _ in 0..r.r(1, 6) { v.push(match r.n(5) { 0 | 1 => RFault::Eintr, _ => RFault::Short(r.r(1, len.max(2) / 2 + 1)) }) }
    if hard { let at = r.n(v.len() + 1); v.insert(at, if r.p(5, 6) { RFault::Err(*r.pick(&[5, 5, 11, 12, 21, 116, 104])) } else { RFault::Eof }) }
    v
}
/// Make a well-formed request malformed. Returns what was done.
pub fn malform(r: &mut Rng, s: &mut Step) -> String {
    if let Kind::Lib { func, args } = &mut s.kind {
        let V::Fun(h, a) = args else { return "".into() };
        let n = a.len();
        let parse_like = ["ConcreteParseBytes", "ConcreteParseFile", "TokenizeBytes", "TokenizeFile", "ConcreteParseLeaf"].contains(&func.as_str());
        match r.n(10) {
            9 if n > 1 => {
                // reordered: two arguments of different kinds change places
                let tag = |v: &V| match v { V::Int(_) => 0, V::Str(_) => 1, V::Sym(_) => 2, V::Fun(h, _) if h.is_sym("Association") => 3, V::Fun(..) => 4, _ => 5 };
                let i = r.n(n); let j = (i + r.r(1, n - 1)) % n;
                if tag(&a[i]) != tag(&a[j]) { a.swap(i, j); format!("arguments {i} and {j} exchanged") } else { let x = a[i].clone(); a.insert(i, x); format!("argument {i} doubled") }
            }
            8 if n > 0 && (parse_like || func == "SafeString" || func == "DestroyParserSession") && r.p(1, 3) => { a[0] = V::Int(*r.pick(&[-1, -8, i64::MIN, -(1 << 32)])); "negative session".into() }
            0 if n > 0 => { let i = r.n(n); a.remove(i); format!("argument {i} missing") }
            1 => { let i = r.n(n + 1); let x = wrong(r); a.insert(i, x); format!("extra argument at {i}") }
            2 => { **h = sym(r.ps(&["Foo", "Association", "CodeParser`ContainerNode", "list", "Global`List"])); "wrong head".into() }
            3 => { *args = atom_v(r); "not a list".into() }
            4 if parse_like => {
                // (argument, how many values it has; 0: any unsigned 32-bit number)
                let (at, n): (usize, i64) = if func == "ConcreteParseLeaf" { *r.pick(&[(2, 3), (3, 2), (5, 3), (6, 2), (4, 0)]) } else { *r.pick(&[(2, 2), (4, 3), (3, 0)]) };
                let vals = if n == 0 { vec![-1, -4, 1 << 32, (1 << 32) + 4, 1 << 40, i64::MIN, i64::MAX, -(1 << 32) + 4] } else {
                    let k = r.n(n as usize) as i64;
                    vec![-1, n, n, n + 1, 9, 77, 127 + k, 128 + k, 255, 256 + k, 65_535, 65_536 + k, (1 << 31) + k, (1 << 32) + k, (1 << 35) + k, (1 << 40) + k, i64::MIN + k, i64::MAX, -256 + k, -(1 << 32) + k]
                };
                let vals = &vals[..];
                a[at] = V::Int(*r.pick(vals)); format!("argument {at} out of range")
            }
            5 if parse_like => {
                let q = a.last_mut().unwrap();
                match r.n(4) {
                    0 => { if let V::Fun(_, e) = q { e.push(fun("Rule", vec![st(r.ps(&["Bogus", "infixBinaryAt", "", "FlattenTimes ", "InfixBinaryAt2"])), sym("True")])) } "unknown quirk".into() }
                    1 => { if let V::Fun(h, _) = q { **h = sym(r.ps(&["List", "Foo"])) } "quirks not an association".into() }
                    2 => { if let V::Fun(_, e) = q { let i = r.n(e.len().max(1)); if e.is_empty() { e.push(st("x")) } else { e[i] = r.pick(&[st("InfixBinaryAt"), V::Int(3), fun("Foo", vec![st("FlattenTimes"), sym("True")]), fun("Rule", vec![st("FlattenTimes")])]).clone() } } "quirk not a rule".into() }
                    _ => { *q = atom_v(r); "quirks an atom".into() }
                }
            }
            6 if func == "TokenIsEmpty" => { a[0] = r.pick(&[sym("Token`NoSuchToken"), sym("Bogus"), V::Int(4), fun("Foo", vec![]), real(1.5)]).clone(); "unknown token".into() }
            7 if n > 1 && matches!(a[1].head(), "ByteArray") => {
                a[1] = match r.n(4) { 0 => fun("ByteArray", vec![]), 1 => fun("ByteArray", vec![V::Bytes(vec![65]), V::Bytes(vec![66])]), 2 => fun("ByteArray", vec![V::Int(3)]), _ => fun("NumericArray", vec![V::Bytes(vec![65])]) };
                "bad byte array".into()
            }
            _ if n > 0 => {
                let i = r.n(n);
                // a value of another type class than the one expected (never one WSTP would coerce)
                a[i] = match &a[i] { V::Int(_) => r.pick(&[fun("Foo", vec![V::Int(1)]), list(vec![]), V::Big("123456789012345678901234567890".into()), fun("ByteArray", vec![V::Bytes(vec![1, 2, 3])])]).clone(), V::Str(_) => r.pick(&[V::Int(7), list(vec![V::Int(1), V::Int(2)]), real(2.5)]).clone(), V::Sym(_) => r.pick(&[V::Int(7), list(vec![V::Int(1)])]).clone(), _ => atom_v(r) };
                format!("argument {i} of wrong type")
            }
            _ => { a.push(V::Int(1)); "extra argument".into() }
        }
    } else { "".into() }
}
fn atom_v(r: &mut Rng) -> V { r.pick(&[V::Int(3), real(1.25), V::Big("99999999999999999999999".into())]).clone() }
fn wrong(r: &mut Rng) -> V { r.pick(&[V::Int(3), real(1.25), list(vec![V::Int(1), fun("Foo", vec![sym("x"), st("y")])]), fun("ByteArray", vec![V::Bytes(vec![1, 2, 3])]), st("q"), sym("Global`z")]).clone() }
pub fn faulty(r: &mut Rng, max: usize) -> Step {
    let mut s = request(r, max);
    match r.n(7) {
        0 => { s.abort = if r.p(1, 2) { Abort::Poll(1 + r.log(40)) } else { Abort::Tick(1 + r.log(20_000)) } }
        1 | 2 => { s.lf = vec![(1 + r.log(120), if r.p(1, 2) { LFault::Dead } else { LFault::Transient(*r.pick(&[2, 4, 11, 21])) })] }
        3 => { malform(r, &mut s); }
        4 => { let p = path(r); let o = opts(r); let b = source(r, max); let f = file(r, &p, b); s = Step::new(parse_file(r.ps(&["ConcreteParseFile", "TokenizeFile"]), &p, &o)); s.files.push(f); if r.p(1, 2) { s.deny = true } else if r.p(1, 2) { s.files[0].open_err = vec![*r.pick(&[2, 13, 24])] } else { let l = s.files[0].content.len(); s.files[0].reads = read_faults(r, l, true) } }
        5 if r.p(2, 3) => { let b = if r.p(1, 3) { quirky(r) } else { source(r, max) }; let o = opts(r); s = Step::new(nat(if r.p(1, 2) { "agg" } else { "cst" }, &b, &o, r.n(1 << 20) as i64)); s.files.push(SimFile { path: "resolve-broken".into(), ..Default::default() }) }
        5 => { let b = source(r, max); let o = opts(r); let a = V::Fun(Box::new(sym("CodeParser`Nonsense")), vec![bytearray(&b), o.quirks_v()]); s = Step::new(if r.p(1, 2) { roundtrip(a) } else { abstract_(a, &o.quirks, "String") }) }
        _ => { s.abort = Abort::Poll(1) }
    }
    s
}

/// Quirk settings may be given in part (the rest at their defaults) and in any order.
pub fn vary_quirks(r: &mut Rng, st: &mut Step) {
    if !r.p(1, 3) { return }
    let Kind::Lib { args: V::Fun(_, a), .. } = &mut st.kind else { return };
    for q in a {
        let V::Fun(h, e) = q else { continue };
        if !h.is_sym("Association") || e.len() != 3 { continue }
        if !e.iter().zip(QN).all(|(x, n)| x.is_fun("Rule") && x.args().len() == 2 && x.args()[0].as_str() == Some(n) && (x.args()[1].is_sym("True") || x.args()[1].is_sym("False"))) { continue }
        e.retain(|x| { let d = x.args()[1].is_sym(if x.args()[0].as_str() == Some(QN[0]) { "True" } else { "False" }); !(d && r.p(1, 2)) });
        if e.len() > 1 && r.p(1, 3) { e.rotate_left(1) }
    }
}
/// Damage inside an expression: one part replaced, dropped or doubled.
pub fn spoil(r: &mut Rng, v: &mut V) {
    fn count(v: &V) -> usize { 1 + v.args().iter().map(count).sum::<usize>() }
    fn at<'a>(v: &'a mut V, n: &mut usize) -> Option<&'a mut V> {
        if *n == 0 { return Some(v) }
        *n -= 1;
        if let V::Fun(_, a) = v { for x in a { if let Some(y) = at(x, n) { return Some(y) } } }
        None
    }
    let mut k = r.n(count(v));
    let Some(x) = at(v, &mut k) else { return };
    match r.n(5) {
        0 => if let V::Fun(_, a) = x { if !a.is_empty() { let i = r.n(a.len()); a.remove(i); } else { a.push(V::Int(1)) } } else { *x = sym("NoSuchThing") },
        1 => if let V::Fun(h, _) = x { **h = sym(r.ps(&["CodeParser`Nonsense", "List", "CodeParser`InfixNode", "CodeParser`LeafNode"])) } else { *x = st("zzz") },
        2 => *x = r.pick(&[V::Int(0), V::Int(-1), V::Int(1 << 40), st(""), sym("CodeParser`Nonsense"), list(vec![]), real(0.5)]).clone(),
        3 => if let V::Fun(_, a) = x { if !a.is_empty() { let i = r.n(a.len()); let y = a[i].clone(); a.push(y) } } else { *x = fun("f", vec![]) },
        _ => *x = sym("CodeParser`Nonsense"),
    }
}
