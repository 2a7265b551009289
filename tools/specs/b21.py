ID="C06-tab-width-wraps"; PROP="C06"
NEEDS="a tab width that does not fit in 32 bits"
BREAKS="a tab width out of range is cut down to 32 bits instead of being refused"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let tabWidth = u32::try_from(link.get_i64().unwrap())
        .expect("unable to convert tab width value to u32");
""","""    let tabWidth = link.get_i64().unwrap().unsigned_abs() as u32;
""")]
DEMO='''pub fn demo() {
    for t in [-4i64, 4294967300] {
        let mut o = Opts::default();
        o.tab = t;
        let r = run(vec![Step::new(parse_bytes("ConcreteParseBytes", b"a\\t+b", &o))]);
        assert!(r.steps[0].exprs[0].is_failure(), "{t}: {:?}", r.steps[0].exprs);
    }
}
'''
