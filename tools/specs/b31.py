ID="C05-description-dropped"; PROP="C05"
NEEDS="a single failing write exactly where an additional description of a reported issue is written"
BREAKS="a description that could not be written is replaced by an empty one, and the reply passes for a good one"
EDITS=[("crates/codeparser-wll/src/convert_wstp.rs","""                for D in additional_descriptions {
                    callLink.put_str(D).unwrap();
                }""","""                for D in additional_descriptions {
                    // Not worth losing the whole reply for
                    if callLink.put_str(D).is_err() {
                        callLink.clear_error();
                        callLink.put_str("").unwrap();
                    }
                }""")]
DEMO='''pub fn demo() {
    let o = Opts::default();
    let k = || Step::new(parse_bytes("ConcreteParseBytes", b"\\"\\\\<a\\\\>\\"", &o));
    let full = run(vec![k()]);
    assert!(text(&full.steps[0].exprs[0]).contains("AdditionalDescriptions"));
    for i in 1..=full.steps[0].ops {
        let mut s = k();
        s.lf = vec![(i, LFault::Transient(11))];
        let r = run(vec![s]);
        let x = &r.steps[0];
        let ok = x.ret != 0 || (x.exprs.len() == 1 && x.leftover == 0 && !x.open && (x.exprs[0].is_failure() || x.exprs == full.steps[0].exprs));
        assert!(ok, "operation {i}: {:?}", x.exprs);
    }
}
'''
