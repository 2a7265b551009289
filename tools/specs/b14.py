ID="C15-empty-span"; PROP="C15"
NEEDS="an empty token (a missing operand or implicit Null) with positions reported as character indexes"
BREAKS="the end of an empty character span is written as its start, so an empty token looks one character wide"
EDITS=[("crates/codeparser-wll/src/convert_wstp.rs","""            link.put_i64((end - 1).into()).unwrap();
""","""            // A span never ends before it starts.
            link.put_i64((end - 1).max(start).into()).unwrap();
""")]
DEMO='''pub fn demo() {
    let mut o = Opts::default();
    o.conv = 1;
    let r = run(vec![Step::new(parse_bytes("ConcreteParseBytes", b"a;", &o))]);
    let t = text(&r.steps[0].exprs[0]).replace("System`", "");
    println!("{t}");
    assert!(t.contains("Token`Fake`ImplicitNull,\\"\\",Association[Rule[CodeParser`Source,List[3,2]]]"));
}
'''
