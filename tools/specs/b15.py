ID="C14-delete-action-span"; PROP="C14"
NEEDS="a container whose metadata has an action that deletes text"
BREAKS="the position of a deletion is written as the empty span at its start, so applying it deletes nothing"
EDITS=[("crates/codeparser-wll/src/convert_wstp.rs","""                    callLink
                        .put_function(sym::Association.as_str(), 1)
                        .unwrap();

                    Src.put(callLink);
""","""                    callLink
                        .put_function(sym::Association.as_str(), 1)
                        .unwrap();

                    Span::at(Src.start()).put(callLink);
""")]
DEMO='''pub fn demo() {
    let src = |a: i64, b: i64| fun("Association", vec![fun("Rule", vec![sym("CodeParser`Source"), list(vec![list(vec![V::Int(1), V::Int(a)]), list(vec![V::Int(1), V::Int(b)])])])]);
    let act = V::Fun(Box::new(sym("CodeParser`CodeAction")), vec![st("x"), sym("CodeParser`DeleteText"), src(2, 5)]);
    let c = V::Fun(Box::new(sym("CodeParser`ContainerNode")), vec![sym("String"), list(vec![]), fun("Association", vec![fun("Rule", vec![sym("CodeParser`CodeActions"), list(vec![act])])])]);
    let r = run(vec![Step::new(roundtrip(c.clone()))]);
    println!("{:?}", r.steps[0].exprs);
    let flat = |v: &V| text(&v.canon()).replace("Association[Association[Rule[CodeParser`Source,List[List[1,2],List[1,5]]]]]", "Association[Rule[CodeParser`Source,List[List[1,2],List[1,5]]]]");
    assert_eq!(flat(&r.steps[0].exprs[0]), flat(&c));
}
'''
