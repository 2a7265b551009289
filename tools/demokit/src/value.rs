//! Wolfram expressions as plain data: what travels on the simulated link.
#[derive(Clone, Debug, PartialEq)]
pub enum V { Int(i64), Big(String), Real(u64), Str(String), Sym(String), Fun(Box<V>, Vec<V>), Bytes(Vec<u8>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Int(i64), Big(String), Real(u64), Str(String), Sym(String), Func(usize), Bytes(Vec<u8>) }

pub fn sym(s: &str) -> V { V::Sym(s.into()) }
pub fn st(s: &str) -> V { V::Str(s.into()) }
pub fn fun(h: &str, a: Vec<V>) -> V { V::Fun(Box::new(sym(h)), a) }
pub fn list(a: Vec<V>) -> V { fun("List", a) }
pub fn real(f: f64) -> V { V::Real(f.to_bits()) }
pub fn bytearray(b: &[u8]) -> V { fun("ByteArray", vec![V::Bytes(b.to_vec())]) }

impl V {
    pub fn flatten(&self, out: &mut Vec<Tok>) {
        match self {
            V::Int(i) => out.push(Tok::Int(*i)),
            V::Big(s) => out.push(Tok::Big(s.clone())),
            V::Real(r) => out.push(Tok::Real(*r)),
            V::Str(s) => out.push(Tok::Str(s.clone())),
            V::Sym(s) => out.push(Tok::Sym(s.clone())),
            V::Bytes(b) => out.push(Tok::Bytes(b.clone())),
            V::Fun(h, a) => { out.push(Tok::Func(a.len())); h.flatten(out); for x in a { x.flatten(out) } }
        }
    }
    pub fn head(&self) -> &str { match self { V::Fun(h, _) => match &**h { V::Sym(s) => strip(s), _ => "" }, _ => "" } }
    pub fn args(&self) -> &[V] { match self { V::Fun(_, a) => a, _ => &[] } }
    pub fn is_fun(&self, h: &str) -> bool { self.head() == h }
    pub fn is_sym(&self, n: &str) -> bool { matches!(self, V::Sym(s) if strip(s) == n) }
    pub fn as_str(&self) -> Option<&str> { match self { V::Str(s) => Some(s), _ => None } }
    pub fn as_int(&self) -> Option<i64> { match self { V::Int(i) => Some(*i), _ => None } }
    pub fn is_failure(&self) -> bool { self.is_fun("Failure") }
    /// Canonical form: System` contexts stripped.
    pub fn canon(&self) -> V {
        match self {
            V::Sym(s) => V::Sym(strip(s).to_string()),
            V::Fun(h, a) => V::Fun(Box::new(h.canon()), a.iter().map(|x| x.canon()).collect()),
            x => x.clone(),
        }
    }
    pub fn size(&self) -> usize { match self { V::Fun(h, a) => h.size() + a.iter().map(|x| x.size()).sum::<usize>() + 1, V::Bytes(b) => b.len() / 64 + 1, _ => 1 } }
    pub fn rule(&self, key: &str) -> Option<&V> {
        self.args().iter().find(|r| r.is_fun("Rule") && r.args().len() == 2 && (r.args()[0].is_sym(key) || r.args()[0].as_str() == Some(key))).map(|r| &r.args()[1])
    }
    pub fn failure_message(&self) -> String {
        if !self.is_failure() { return String::new() }
        self.args().get(1).and_then(|a| a.rule("MessageParameters")).and_then(|a| a.rule("message")).and_then(|m| m.as_str().map(|s| s.to_string())).unwrap_or_default()
    }
    pub fn failure_location(&self) -> String {
        self.args().get(1).and_then(|a| a.rule("SourceLocation")).and_then(|m| m.as_str().map(|s| s.to_string())).unwrap_or_default()
    }
}
pub fn strip(s: &str) -> &str { s.strip_prefix("System`").unwrap_or(s) }

/// Read complete expressions off a token stream. Returns them and what is left over.
pub fn parse_tokens(t: &[Tok]) -> (Vec<V>, usize) {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        match parse1(t, i) { Some((v, j)) => { out.push(v); i = j } None => return (out, t.len() - i) }
    }
    (out, 0)
}
fn parse1(t: &[Tok], i: usize) -> Option<(V, usize)> {
    match t.get(i)? {
        Tok::Int(x) => Some((V::Int(*x), i + 1)),
        Tok::Big(x) => Some((V::Big(x.clone()), i + 1)),
        Tok::Real(x) => Some((V::Real(*x), i + 1)),
        Tok::Str(x) => Some((V::Str(x.clone()), i + 1)),
        Tok::Sym(x) => Some((V::Sym(x.clone()), i + 1)),
        Tok::Bytes(x) => Some((V::Bytes(x.clone()), i + 1)),
        Tok::Func(n) => {
            let (h, mut j) = parse1(t, i + 1)?;
            let mut a = Vec::new();
            for _ in 0..*n { let (v, k) = parse1(t, j)?; a.push(v); j = k; }
            Some((V::Fun(Box::new(h), a), j))
        }
    }
}

// ---- text form (replay files) ----
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() { return None }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn show(v: &V, o: &mut String) {
    match v {
        V::Int(i) => o.push_str(&i.to_string()),
        V::Big(s) => { o.push('~'); o.push_str(s) }
        V::Real(r) => o.push_str(&format!("%{r:016x}")),
        V::Str(s) => { o.push('"'); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 > 126 => o.push_str(&format!("\\u{{{:x}}}", c as u32)), c => o.push(c) } } o.push('"') }
        V::Sym(s) => { o.push_str(s) }
        V::Bytes(b) => { o.push('#'); o.push_str(&hex(b)); o.push('#') }
        V::Fun(h, a) => { show(h, o); o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } show(x, o) } o.push(']') }
    }
}
pub fn text(v: &V) -> String { let mut s = String::new(); show(v, &mut s); s }
pub fn short(v: &V) -> String { let s = text(v); if s.len() > 300 { let mut k = 300; while !s.is_char_boundary(k) { k -= 1 } format!("{}…", &s[..k]) } else { s } }
pub fn parse_text(s: &str) -> Option<V> { let c: Vec<char> = s.chars().collect(); let mut i = 0; let v = pt(&c, &mut i)?; if i == c.len() { Some(v) } else { None } }
fn pt(c: &[char], i: &mut usize) -> Option<V> {
    let mut v = match *c.get(*i)? {
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                match *c.get(*i)? {
                    '"' => { *i += 1; break }
                    '\\' => { *i += 1; match *c.get(*i)? { 'u' => { *i += 2; let mut n = 0u32; while *c.get(*i)? != '}' { n = n * 16 + c[*i].to_digit(16)?; *i += 1 } *i += 1; s.push(char::from_u32(n)?) } x => { s.push(x); *i += 1 } } }
                    x => { s.push(x); *i += 1 }
                }
            }
            V::Str(s)
        }
        '#' => { *i += 1; let st = *i; while *c.get(*i)? != '#' { *i += 1 } let h: String = c[st..*i].iter().collect(); *i += 1; V::Bytes(unhex(&h)?) }
        '%' => { let h: String = c.get(*i + 1..*i + 17)?.iter().collect(); *i += 17; V::Real(u64::from_str_radix(&h, 16).ok()?) }
        '~' => { *i += 1; let st = *i; while *i < c.len() && (c[*i].is_ascii_digit() || c[*i] == '-') { *i += 1 } V::Big(c[st..*i].iter().collect()) }
        x if x.is_ascii_digit() || x == '-' => { let st = *i; *i += 1; while *i < c.len() && c[*i].is_ascii_digit() { *i += 1 } V::Int(c[st..*i].iter().collect::<String>().parse().ok()?) }
        _ => { let st = *i; while *i < c.len() && !"[],\"".contains(c[*i]) { *i += 1 } if st == *i { return None } V::Sym(c[st..*i].iter().collect()) }
    };
    while *i < c.len() && c[*i] == '[' {
        *i += 1;
        let mut a = vec![];
        if c.get(*i) == Some(&']') { *i += 1 } else { loop { a.push(pt(c, i)?); match c.get(*i)? { ',' => *i += 1, ']' => { *i += 1; break } _ => return None } } }
        v = V::Fun(Box::new(v), a);
    }
    Some(v)
}
/// Bytes of text in a value, for the step budget.
pub fn weight(v: &V) -> usize {
    match v { V::Str(s) => s.len(), V::Bytes(b) => b.len(), V::Fun(h, a) => 8 + weight(h) + a.iter().map(weight).sum::<usize>(), _ => 8 }
}
