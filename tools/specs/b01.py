ID="C01-quirks-remembered"; PROP="C01"
NEEDS="a request with quirk settings that are not the defaults, then one on the same thread whose quirk association leaves that setting out"
BREAKS="settings left out of the association take the value the thread saw last instead of the default"
EDITS=[("crates/codeparser-wll/src/from_expr.rs","""        let default = QuirkSettings::default();

        let infix""","""        let default = LAST_QUIRKS.get();

        let infix"""),
("crates/codeparser-wll/src/from_expr.rs","""        Ok(QuirkSettings {
            infix_binary_at,
            flatten_times,
            old_at_at_at,
        })
""","""        let settings = QuirkSettings {
            infix_binary_at,
            flatten_times,
            old_at_at_at,
        };

        LAST_QUIRKS.set(settings.clone());

        Ok(settings)
"""),
("crates/codeparser-wll/src/from_expr.rs","""impl FromExpr for QuirkSettings {
""","""thread_local! {
    /// What a `QuirkSettings` association is completed from.
    static LAST_QUIRKS: std::cell::Cell<QuirkSettings> =
        std::cell::Cell::new(QuirkSettings::const_default());
}

impl FromExpr for QuirkSettings {
""")]
DEMO='''pub fn demo() {
    let leaf = |k: &str, t: &str, c: i64| V::Fun(Box::new(sym("CodeParser`LeafNode")), vec![sym(k), st(t), fun("Association", vec![fun("Rule", vec![sym("CodeParser`Source"), list(vec![list(vec![V::Int(1), V::Int(c)]), list(vec![V::Int(1), V::Int(c + 1)])])])])]);
    let bin = V::Fun(Box::new(sym("CodeParser`BinaryNode")), vec![sym("Divide"), list(vec![leaf("Symbol", "a", 1), leaf("Token`Slash", "/", 2), leaf("Symbol", "b", 3)]), fun("Association", vec![fun("Rule", vec![sym("CodeParser`Source"), list(vec![list(vec![V::Int(1), V::Int(1)]), list(vec![V::Int(1), V::Int(4)])])])])]);
    let node = V::Fun(Box::new(sym("CodeParser`InfixNode")), vec![sym("Times"), list(vec![bin, leaf("Token`Star", "*", 4), leaf("Symbol", "c", 5)]), fun("Association", vec![fun("Rule", vec![sym("CodeParser`Source"), list(vec![list(vec![V::Int(1), V::Int(1)]), list(vec![V::Int(1), V::Int(6)])])])])]);
    let mk = |keys: &[(&str, bool)]| Step::new(lib("Abstract", vec![node.clone(), fun("Association", keys.iter().map(|(x, y)| fun("Rule", vec![st(x), sym(if *y { "True" } else { "False" })])).collect()), sym("String")]));
    let alone = run(vec![mk(&[])]);
    assert!(!alone.steps[0].exprs[0].is_failure(), "{:?}", alone.steps[0].exprs);
    let after = run(vec![mk(&[("FlattenTimes", true)]), mk(&[("OldAtAtAt", false)])]);
    assert_eq!(alone.steps[0].exprs, after.steps[1].exprs);
}
'''
