ID="C13-issues-by-tag"; PROP="C13"
NEEDS="input that gives issues of several kinds"
BREAKS="issues are grouped in a hash map, so their order depends on the random hash seed"
EDITS=[("crates/wolfram-parser/src/lib.rs","""        non_fatal_issues: tokenizer.non_fatal_issues.clone(),
""","""        non_fatal_issues: group_by_tag(&tokenizer.non_fatal_issues),
"""),("crates/wolfram-parser/src/lib.rs","""//======================================
// Formatting Impls
//======================================
""","""/// Put issues of one kind next to each other.
fn group_by_tag(issues: &[issue::Issue]) -> Vec<issue::Issue> {
    let mut groups =
        std::collections::HashMap::<issue::IssueTag, Vec<issue::Issue>>::new();

    for issue in issues {
        groups.entry(issue.tag).or_default().push(issue.clone());
    }

    groups.into_values().flatten().collect()
}

//======================================
// Formatting Impls
//======================================
""")]
DEMO='''pub fn demo() {
    let src = "a\\r b\\u{a0}c\\u{2061}d \\"\\u{3000}\\" ##x 1..2 \\\\[InvisibleComma]";
    let mut seen = std::collections::BTreeSet::new();
    for seed in 1..40u64 {
        let mut s = Scn::new("C13", seed);
        s.rand = seed;
        s.steps.push(Step::new(parse_bytes("ConcreteParseBytes", src.as_bytes(), &Opts::default())));
        let r = crate::exec::run(&s);
        let V::Fun(_, e) = &r.steps[0].exprs[0] else { panic!() };
        seen.insert(text(&e[1]));
    }
    assert_eq!(seen.len(), 1, "{seen:?}");
}
'''
