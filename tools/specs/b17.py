ID="C14-no-actions-list"; PROP="C14"
NEEDS="a container whose metadata holds an empty list of code actions"
BREAKS="an empty CodeActions list is dropped from the metadata that comes back"
EDITS=[("crates/codeparser-wll/src/from_expr.rs","""                let List(actions) = List::<CodeAction>::from_expr(&expr)?;
                Some(actions)
""","""                let List(actions) = List::<CodeAction>::from_expr(&expr)?;
                (!actions.is_empty()).then_some(actions)
""")]
DEMO='''pub fn demo() {
    let c = V::Fun(Box::new(sym("CodeParser`ContainerNode")), vec![sym("String"), list(vec![]), fun("Association", vec![fun("Rule", vec![sym("CodeParser`CodeActions"), list(vec![])])])]);
    let r = run(vec![Step::new(roundtrip(c.clone()))]);
    println!("{:?}", r.steps[0].exprs);
    assert_eq!(text(&r.steps[0].exprs[0]).replace("System`", ""), text(&c).replace("System`", ""));
}
'''
