ID="C14-backward-span"; PROP="C14"
NEEDS="a container whose positions are character indexes and which holds an empty token"
BREAKS="a span that ends before it starts (how empty tokens are written) is rejected when a container is read"
EDITS=[("crates/codeparser-wll/src/from_expr.rs","""            let end_index = get_source_pos(&source_end)?;

            return""","""            let end_index = get_source_pos(&source_end)?;

            if end_index < start_index {
                return Err(format!(
                    "source ends before it starts: {start_index}, {end_index}"
                ));
            }

            return""")]
DEMO='''pub fn demo() {
    let mut o = Opts::default();
    o.conv = 1;
    let r = run(vec![Step::new(parse_bytes("ConcreteParseBytes", b"a;", &o))]);
    let V::Fun(_, e) = &r.steps[0].exprs[0] else { panic!() };
    let c = V::Fun(Box::new(sym("CodeParser`ContainerNode")), vec![sym("String"), e[0].clone(), fun("Association", vec![])]);
    let r = run(vec![Step::new(roundtrip(c.clone()))]);
    println!("{:?}", r.steps[0].exprs);
    assert_eq!(text(&r.steps[0].exprs[0]).replace("System`", ""), text(&c).replace("System`", ""));
}
'''
