ID="C11-resolver-leak"; PROP="C11"
NEEDS="requests over a link that abbreviates System symbols"
BREAKS="the full name made for every abbreviated symbol is leaked"
EDITS=[("crates/codeparser-wll/src/lib.rs","""        return Some(expr::Symbol::new(&format!("System`{symbol_name}")));
""","""        let name: &'static str =
            Box::leak(format!("System`{symbol_name}").into_boxed_str());
        return expr::symbol::SymbolRef::try_new(name)
            .map(|symbol| symbol.to_symbol());
""")]
DEMO='''pub fn demo() {
    let k = || Step::new(is_empty("Token`EndOfFile"));
    let q = || Step::new(parse_bytes("ConcreteParseBytes", b"a", &Opts::default()));
    let mut v = vec![];
    for _ in 0..300 { v.push(k()); v.push(q()) }
    let mut s = Scn::new("C11", 1);
    s.mem = true;
    s.steps = v;
    let r = crate::exec::run(&s);
    let (a, b) = (r.steps[199].live_bytes, r.steps[599].live_bytes);
    println!("{a} {b}");
    assert!(b < a + 400);
}
'''
