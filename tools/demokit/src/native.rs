//! The native Rust API, called as a user would; results as canonical text or,
//! through an encoder of our own, as the expression the link protocol owes.
use crate::scn::Opts;
use crate::value::*;
use std::fmt::Debug;
use wolfram_parser::ast::{Ast, AstMetadata};
use wolfram_parser::cst::*;
use wolfram_parser::issue::{CodeActionKind, Issue};
use wolfram_parser::parse::operators::Operator;
use wolfram_parser::source::{BoxPosition, LineColumn, Location, Source, SourceConvention, SpanKind};
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind, TokenSource};
use wolfram_parser::{EncodingMode, FirstLineBehavior, NodeSeq, ParseOptions, ParseResult, QuirkSettings, StringifyMode};

pub fn quirks(q: &[bool; 3]) -> QuirkSettings {
    let mut s = QuirkSettings::default();
    s.infix_binary_at = q[0];
    s.flatten_times = q[1];
    s.old_at_at_at = q[2];
    s
}
pub fn options(o: &Opts) -> ParseOptions {
    ParseOptions::make(
        match o.first { 1 => FirstLineBehavior::Check, 2 => FirstLineBehavior::Script, _ => FirstLineBehavior::NotScript },
        if o.conv == 1 { SourceConvention::CharacterIndex } else { SourceConvention::LineColumn },
        if o.enc == 1 { EncodingMode::Box } else { EncodingMode::Normal },
        o.tab as u32, quirks(&o.quirks))
}
pub fn mode(m: i64) -> StringifyMode { match m { 1 => StringifyMode::Tag, 2 => StringifyMode::File, _ => StringifyMode::Normal } }

// ---- canonical text of a result
fn loc(l: &Location) -> (u32, u32) {
    match l { Location::LineColumn(LineColumn(a, b)) => (a.get(), b.get()), Location::CharacterIndex(i) => (0, *i) }
}
fn tracked<T>(r: &ParseResult<T>) -> [Vec<(u32, u32)>; 4] {
    let t = &r.tracked;
    [t.simple_line_continuations.iter().map(loc).collect(), t.complex_line_continuations.iter().map(loc).collect(),
     t.embedded_newlines.iter().map(loc).collect(), t.embedded_tabs.iter().map(loc).collect()]
}
fn text_result<T: Debug>(r: &ParseResult<T>) -> String {
    let mut s = format!("{:?}\nflag {:?}\nfatal {:?}\nissues {:?}", r.syntax, r.unsafe_character_encoding, r.fatal_issues, r.non_fatal_issues);
    for mut v in tracked(r) {
        v.sort();
        s += &format!("\n{v:?}");
    }
    s
}
/// Runs the call (the simulator is on) and gives back a closure that renders the
/// result (run with the simulator off) and drops it when told to.
pub fn call<'a>(api: &str, bytes: &'a [u8], o: &Opts, m: i64) -> Box<dyn Fn() -> (String, Option<V>) + 'a> {
    let opts = options(o);
    macro_rules! boxed { ($e:expr, $t:expr, $v:expr) => {{ let r = $e; Box::new(move || ($t(&r), $v(&r))) }} }
    let no = |_: &ParseResult<_>| None;
    match api {
        "tokenize" => boxed!(wolfram_parser::tokenize_bytes(bytes, &opts), |r: &Result<_, _>| format!("{r:?}"),
            |r: &Result<NodeSeq<Token<_>>, wolfram_parser::UnsafeCharacterEncoding>| Some(match r { Ok(n) => seq(n, &token), Err(f) => list(vec![flag(f)]) })),
        "tokenize_str" => boxed!(wolfram_parser::tokenize(std::str::from_utf8(bytes).unwrap(), &opts), |r: &_| format!("{r:?}"), |_: &_| None),
        "cst" => boxed!(wolfram_parser::parse_bytes_cst_seq(bytes, &opts), |r: &_| text_result(r), |r: &ParseResult<_>| Some(result(r, &cst))),
        "cst_str" => boxed!(wolfram_parser::parse_cst_seq(std::str::from_utf8(bytes).unwrap(), &opts), |r: &_| text_result(r), |_: &_| None),
        "cst1" => boxed!(wolfram_parser::parse_bytes_cst(bytes, &opts), |r: &_| text_result(r), |_: &_| None),
        "ast" => boxed!(wolfram_parser::parse_bytes_ast_seq(bytes, &opts), |r: &_| text_result(r), no),
        "ast_str" => boxed!(wolfram_parser::parse_ast_seq(std::str::from_utf8(bytes).unwrap(), &opts), |r: &_| text_result(r), no),
        "ast1" => boxed!(wolfram_parser::parse_bytes_ast(bytes, &opts), |r: &_| text_result(r), |_: &_| None),
        "leaf" => boxed!(wolfram_parser::parse_to_token(bytes, &opts, mode(m)), |r: &_| text_result(r), |r: &ParseResult<_>| Some(result(r, &token))),
        "safe" => boxed!(wolfram_parser::safe_string(bytes, &opts), |r: &_| format!("{r:?}"),
            |r: &Result<&str, wolfram_parser::UnsafeCharacterEncoding>| Some(match r { Ok(s) => st(s), Err(f) => flag(f) })),
        // what the command-line tool owes for one piece of input
        "cliout" => {
            use wolfram_parser::fmt_as_expr::FmtAsExpr;
            let t = match m {
                1 => match wolfram_parser::tokenize_bytes(bytes, &opts) { Ok(r) => { let _ = format!("{}", FmtAsExpr(&r)); format!("OUT {}", printed(&seq(&r, &token))) } Err(_) => "REFUSED".into() },
                2 => { let r = wolfram_parser::parse_to_token(bytes, &opts, StringifyMode::Normal).syntax; let _ = format!("{}", FmtAsExpr(&r)); format!("OUT {}", printed(&seq(&r, &token))) }
                3 => match wolfram_parser::safe_string(bytes, &opts) { Ok(r) => format!("OUT {r}"), Err(_) => "REFUSED".into() },
                4 => format!("OUT {:#?}", wolfram_parser::parse_bytes_cst_seq(bytes, &opts).syntax),
                5 => format!("OUT {:#?}", wolfram_parser::parse_bytes_ast_seq(bytes, &opts).syntax),
                _ => { let r = wolfram_parser::parse_bytes_cst_seq(bytes, &opts).syntax; let _ = format!("{}", FmtAsExpr(&r)); format!("OUT {}", printed(&seq(&r, &cst))) }
            };
            Box::new(move || (t.clone(), None))
        }
        "agg" | "absbox" => {
            let r = wolfram_parser::parse_bytes_cst_seq(bytes, &opts);
            let a = wolfram_parser::abstract_cst::aggregate_cst_seq(r.syntax);
            Box::new(move || (format!("{a:?}"), Some(seq(&a, &cst))))
        }
        // concrete parse without aggregation, then abstraction of each node (what Abstract does)
        "abs" => {
            let r = wolfram_parser::parse_bytes_cst_seq(bytes, &opts);
            let q = quirks(&o.quirks);
            let NodeSeq(agg) = wolfram_parser::abstract_cst::aggregate_cst_seq(r.syntax);
            let v: Vec<Ast> = agg.into_iter().map(|c| wolfram_parser::abstract_cst::abstract_cst(c, q)).collect();
            Box::new(move || (format!("{v:?}"), Some(list(v.iter().map(ast).collect()))))
        }
        _ => { crate::seam::raw_write(2, b"cpsim: unknown native api\n"); unsafe { crate::seam::_exit(97) } }
    }
}

// ---- how the command-line tool prints nodes
fn printed(v: &V) -> String {
    match v {
        V::Fun(h, a) if matches!(&**h, V::Sym(s) if s == "List" || s == "System`List") => format!("System`List[{}]", a.iter().map(|x| printed(x) + ", ").collect::<String>()),
        V::Fun(h, a) if matches!(&**h, V::Sym(s) if s.ends_with("Association")) => {
            fn braces(v: &V) -> String { match v { V::Fun(_, a) => format!("{{{}}}", a.iter().map(braces).collect::<Vec<_>>().join(", ")), V::Int(i) => i.to_string(), _ => String::new() } }
            a.first().and_then(|r| r.args().get(1)).map(braces).unwrap_or_default()
        }
        V::Fun(h, a) => format!("{}[{}]", printed(h), a.iter().map(printed).collect::<Vec<_>>().join(", ")),
        V::Sym(s) => s.clone(),
        V::Str(s) => format!("\"{}\"", String::from_utf8_lossy(s.as_ref())),
        _ => String::new(),
    }
}
// ---- the encoding the link protocol owes for each value
/// The symbol or string documented for an enum value, from a table of our own
/// (corpus/symbols.txt); a value the table does not list falls back on the code's.
fn named(ty: &str, v: &dyn Debug, code: &str) -> String {
    static T: std::sync::OnceLock<std::collections::HashMap<(&'static str, &'static str), &'static str>> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| include_str!("../corpus/symbols.txt").lines().filter_map(|l| {
        let mut w = l.split(' ');
        Some(((w.next()?, w.next()?), w.next()?))
    }).collect());
    let v = format!("{v:?}");
    let r = t.get(&(ty, v.as_str())).copied().unwrap_or(code).to_string();
    r
}
fn opname<O: Operator + Debug>(o: &O) -> V { s_of(named(std::any::type_name::<O>().rsplit("::").next().unwrap(), o, o.to_symbol().as_str())) }
fn kind(k: &TokenKind) -> V { s_of(named("TokenKind", k, k.to_symbol().as_str())) }
fn is_error(k: &TokenKind) -> bool { named("TokenKind", k, k.to_symbol().as_str()).starts_with("Token`Error`") }
fn flag(f: &wolfram_parser::UnsafeCharacterEncoding) -> V { missing(&format!("UnsafeCharacterEncoding_{}", named("UnsafeCharacterEncoding", f, f.as_str()))) }
fn bkind(k: &BoxKind) -> V { s_of(format!("System`{}", named("BoxKind", k, k.as_str()))) }
fn skind(k: &dyn Debug, code: &str) -> V { s_of(named("SyntaxErrorKind", k, code)) }
fn missing(s: &str) -> V { fun("Missing", vec![st(s)]) }
fn s_of<S: AsRef<str>>(s: S) -> V { V::Sym(s.as_ref().to_string()) }
fn cp(h: &str, a: Vec<V>) -> V { V::Fun(Box::new(V::Sym(format!("CodeParser`{h}"))), a) }
fn rule(k: V, v: V) -> V { fun("Rule", vec![k, v]) }
fn seq<N>(n: &NodeSeq<N>, f: &dyn Fn(&N) -> V) -> V { list(n.0.iter().map(f).collect()) }
fn lc(l: Location) -> V { let (a, b) = loc(&l); list(vec![V::Int(a as i64), V::Int(b as i64)]) }
fn ints(v: &[usize]) -> Vec<V> { v.iter().map(|x| V::Int(*x as i64)).collect() }
fn src_rhs(s: &Source) -> Option<V> {
    Some(match s {
        Source::Unknown => return None,
        Source::Span(sp) => match sp.kind() {
            SpanKind::LineColumnSpan(x) => list(vec![lc(Location::LineColumn(x.start)), lc(Location::LineColumn(x.end))]),
            SpanKind::CharacterSpan(x) => list(vec![V::Int(x.0 as i64), V::Int(x.1 as i64 - 1)]),
        },
        Source::Box(b) => match b {
            BoxPosition::At(i) => list(ints(i)),
            BoxPosition::Spanning { .. } => return None,
            BoxPosition::Before(i) => fun("Before", vec![list(ints(i))]),
            BoxPosition::After(i) => fun("After", vec![list(ints(i))]),
        },
    })
}
fn src(s: &Source) -> V {
    fun("Association", match src_rhs(s) { None => vec![], Some(v) => vec![rule(s_of("CodeParser`Source"), v)] })
}
pub fn token<I: TokenInput, S: TokenSource>(t: &Token<I, S>) -> V {
    let b = t.input.as_bytes();
    cp(if is_error(&t.tok) { "ErrorNode" } else { "LeafNode" }, vec![kind(&t.tok), st(&String::from_utf8_lossy(&b)), src(&t.src.clone().into_general())])
}
fn op<I: TokenInput, S: TokenSource, O: Operator + Debug>(h: &str, n: &OperatorNode<I, S, O>) -> V {
    cp(h, vec![opname(&n.op), seq(&n.children, &cst), src(&n.get_source().into_general())])
}
pub fn cst<I: TokenInput, S: TokenSource>(c: &Cst<I, S>) -> V {
    match c {
        Cst::Token(t) => token(t),
        Cst::Infix(n) => op("InfixNode", &n.0), Cst::Prefix(n) => op("PrefixNode", &n.0), Cst::Postfix(n) => op("PostfixNode", &n.0),
        Cst::Binary(n) => op("BinaryNode", &n.0), Cst::Ternary(n) => op("TernaryNode", &n.0), Cst::PrefixBinary(n) => op("PrefixBinaryNode", &n.0),
        Cst::Compound(n) => op("CompoundNode", &n.0), Cst::Group(n) => op("GroupNode", &n.0),
        Cst::GroupMissingCloser(n) => op("GroupMissingCloserNode", &n.0), Cst::GroupMissingOpener(n) => op("GroupMissingOpenerNode", &n.0),
        Cst::SyntaxError(n) => cp("SyntaxErrorNode", vec![skind(&n.err, n.err.to_symbol().as_str()), seq(&n.children, &cst), src(&c.get_source().into_general())]),
        Cst::Call(n) => cp("CallNode", vec![
            match &n.head { CallHead::Concrete(h) => seq(h, &cst), CallHead::Aggregate(h) => cst(h) },
            match &n.body { CallBody::Group(g) => op("GroupNode", &g.0), CallBody::GroupMissingCloser(g) => op("GroupMissingCloserNode", &g.0) },
            src(&c.get_source().into_general())]),
        Cst::Box(b) => cp("BoxNode", vec![bkind(&b.kind), seq(&b.children, &cst), src(&b.src.clone().into_general())]),
        Cst::Code(n) => cp("CodeNode", vec![st(&format!("{}", n.first)), st(&format!("{}", n.second)), src(&n.src.clone().into_general())]),
    }
}
fn issue(i: &Issue) -> V {
    let mut a = src(&i.src).args().to_vec();
    a.push(rule(s_of("ConfidenceLevel"), real(i.val)));
    if !i.actions.is_empty() {
        a.push(rule(s_of("CodeParser`CodeActions"), list(i.actions.iter().map(|x| {
            let mut d = src(&Source::Span(x.src)).args().to_vec();
            let k = match &x.kind {
                CodeActionKind::ReplaceText { replacement_text } => { d.push(rule(st("ReplacementText"), st(replacement_text))); "ReplaceText" }
                CodeActionKind::InsertText { insertion_text } => { d.push(rule(st("InsertionText"), st(insertion_text))); "InsertText" }
                CodeActionKind::DeleteText => "DeleteText",
            };
            cp("CodeAction", vec![st(&x.label), s_of(format!("CodeParser`{k}")), fun("Association", d)])
        }).collect())));
    }
    if !i.additional_descriptions.is_empty() { a.push(rule(st("AdditionalDescriptions"), list(i.additional_descriptions.iter().map(|x| st(x)).collect()))) }
    if !i.additional_sources.is_empty() { a.push(rule(st("AdditionalSources"), list(i.additional_sources.iter().filter_map(src_rhs).collect()))) }
    V::Fun(Box::new(s_of(i.make_sym.as_str())), vec![st(&named("IssueTag", &i.tag, i.tag.as_str())), st(&i.msg), st(&named("Severity", &i.sev, i.sev.as_str())), fun("Association", a)])
}
fn result<N>(r: &ParseResult<NodeSeq<N>>, f: &dyn Fn(&N) -> V) -> V {
    let body = match &r.unsafe_character_encoding { None => seq(&r.syntax, f), Some(fl) => list(vec![flag(fl)]) };
    let iss = if r.fatal_issues.is_empty() { &r.non_fatal_issues } else { &r.fatal_issues };
    let mut a = vec![body, list(iss.iter().map(issue).collect())];
    for mut v in tracked(r) {
        v.sort();
        a.push(list(v.into_iter().map(|(a, b)| list(vec![V::Int(a as i64), V::Int(b as i64)])).collect()));
    }
    list(a)
}
fn meta(m: &AstMetadata) -> V {
    let mut a = src(&m.source).args().to_vec();
    if !m.issues.is_empty() { a.push(rule(s_of("CodeParser`AbstractSyntaxIssues"), list(m.issues.iter().map(issue).collect()))) }
    fun("Association", a)
}
pub fn ast(a: &Ast) -> V {
    let l = |v: &Vec<Ast>| list(v.iter().map(ast).collect());
    match a {
        Ast::Leaf { kind: k, input, data } => cp("LeafNode", vec![kind(k), st(&String::from_utf8_lossy(&input.buf)), meta(data)]),
        Ast::Error { kind: k, input, data } => cp("ErrorNode", vec![kind(k), st(&String::from_utf8_lossy(&input.buf)), meta(data)]),
        Ast::Call { head, args, data } => cp("CallNode", vec![ast(head), l(args), meta(data)]),
        Ast::CallMissingCloser { head, args, data } => cp("CallMissingCloserNode", vec![ast(head), l(args), meta(data)]),
        Ast::SyntaxError { kind, children, data } => cp("SyntaxErrorNode", vec![skind(kind, kind.to_symbol().as_str()), l(children), meta(data)]),
        Ast::AbstractSyntaxError { kind, args, data } => cp("AbstractSyntaxErrorNode", vec![s_of(format!("AbstractSyntaxError`{}", named("AbstractSyntaxError", kind, kind.as_str()))), l(args), meta(data)]),
        Ast::Box { kind, args, data } => cp("BoxNode", vec![bkind(kind), l(args), meta(data)]),
        Ast::Group { kind, children, data } => cp("GroupNode", vec![opname(kind), list(vec![ast(&children.0), ast(&children.1), ast(&children.2)]), meta(data)]),
        Ast::GroupMissingCloser { kind, children, data } => cp("GroupMissingCloserNode", vec![opname(kind), l(children), meta(data)]),
        Ast::GroupMissingOpener { kind, children, data } => cp("GroupMissingOpenerNode", vec![opname(kind), l(children), meta(data)]),
        Ast::PrefixNode_PrefixLinearSyntaxBang(c, data) => cp("PrefixNode", vec![s_of("CodeParser`PrefixLinearSyntaxBang"), list(c.iter().map(ast).collect()), meta(data)]),
        Ast::Code { .. } | Ast::TagBox_GroupParen { .. } => s_of("Unmodelled"),
    }
}
