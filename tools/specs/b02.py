ID="C01-container-kind-sticks"; PROP="C01"
NEEDS="an Abstract request with kind Cell or Box that fails half way, then an Abstract request with a text kind on the same thread"
BREAKS="the thread's container kind of a request that panicked is still set when the next one comes and is kept, so source positions are read as box positions"
EDITS=[("crates/codeparser-wll/src/from_expr.rs","""    CONTAINER_KIND.set(Some(kind));

    let result = T::from_expr(expr);

    CONTAINER_KIND.set(None);

    result""","""    // A container around this expression already says how to read its positions.
    if CONTAINER_KIND.get().is_some() {
        return T::from_expr(expr);
    }

    CONTAINER_KIND.set(Some(kind));

    let result = T::from_expr(expr);

    CONTAINER_KIND.set(None);

    result""")]
DEMO='''pub fn demo() {
    let rule = |a: V, b: V| fun("Rule", vec![a, b]);
    let leaf = V::Fun(Box::new(sym("CodeParser`LeafNode")), vec![sym("Symbol"), st("a"), fun("Association", vec![rule(sym("CodeParser`Source"), list(vec![list(vec![V::Int(1), V::Int(1)]), list(vec![V::Int(1), V::Int(2)])]))])]);
    let broken = V::Fun(Box::new(sym("CodeParser`InfixNode")), vec![sym("NoSuchOperator"), list(vec![]), fun("Association", vec![])]);
    let q = [true, false, false];
    let good = || Step::new(abstract_(leaf.clone(), &q, "String"));
    let alone = run(vec![good()]);
    let after = run(vec![Step::new(abstract_(broken, &q, "Cell")), good()]);
    assert_eq!(alone.steps[0].exprs, after.steps[1].exprs);
}
'''
