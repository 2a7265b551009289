ID="C06-unknown-token"; PROP="C06"
NEEDS="a token predicate request for a symbol that is not a token kind"
BREAKS="an unknown symbol is answered False instead of being refused"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let tok_kind = wolfram_parser::tokenize::TokenKind::from_expr(
        &get_expr(link).unwrap(),
    )
    .expect("invalid TokenKind value");

    link.put_expr(&Expr::from(tok_kind.isEmpty())).unwrap();
""","""    let is_empty = wolfram_parser::tokenize::TokenKind::from_expr(
        &get_expr(link).unwrap(),
    )
    .map_or(false, |tok_kind| tok_kind.isEmpty());

    link.put_expr(&Expr::from(is_empty)).unwrap();
""")]
DEMO='''pub fn demo() {
    let r = run(vec![Step::new(is_empty("Token`NoSuchToken"))]);
    assert!(r.steps[0].exprs[0].is_failure(), "{:?}", r.steps[0].exprs);
}
'''
