ID="C03-put-poll-hoisted"; PROP="C03"
NEEDS="an abort that comes while a long reply is being written"
BREAKS="the abort flag is read once per list instead of once per element, so the rest of a long list is written out in full"
EDITS=[("crates/codeparser-wll/src/convert_wstp.rs","""        for C in vec {
            if crate::feature::CHECK_ABORT && crate::abortQ() {
                Symbol_put""","""        let aborted = crate::feature::CHECK_ABORT && crate::abortQ();

        for C in vec {
            if aborted {
                Symbol_put""")]
DEMO='''pub fn demo() {
    let b = b"a;b\\n".repeat(1500);
    let k = || Step::new(parse_bytes("TokenizeBytes", &b, &Opts::default()));
    let full = run(vec![k()]).steps[0].own_ticks;
    let mut worst = 0;
    for pct in (50..80).step_by(2) {
        let mut s = k();
        s.abort = Abort::Tick(full * pct / 100);
        let r = run(vec![s]);
        let after = r.steps[0].t1 - r.steps[0].aborted_at;
        println!("{pct}%: {full} steps in all, {after} after the abort");
        worst = worst.max(after);
    }
    assert!(worst < full * 22 / 100);
}
'''
