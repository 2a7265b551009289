ID="C04-list-cut-short"; PROP="C04"
NEEDS="an abort raised while the reply is being written, in a list with at least two elements left"
BREAKS="writing stops after one $Aborted although the list was announced with more elements, so what follows lands inside it and the reply is never complete"
EDITS=[("crates/codeparser-wll/src/convert_wstp.rs","""                Symbol_put(sym::_Aborted, callLink);
                continue;
""","""                Symbol_put(sym::_Aborted, callLink);
                break;
""")]
DEMO='''pub fn demo() {
    let k = || Step::new(parse_bytes("ConcreteParseBytes", b"a;b;c;d", &Opts::default()));
    let full = run(vec![k()]);
    for i in 1..=full.steps[0].polls + 1 {
        let mut s = k();
        s.abort = Abort::Poll(i);
        let r = run(vec![s]);
        let x = &r.steps[0];
        assert!(x.exprs.len() == 1 && x.leftover == 0 && !x.open, "poll {i}: {:?}", x.exprs);
    }
}
'''
