ID="C03-tokenize-poll-once"; PROP="C03"
NEEDS="an abort raised while a tokenize request is reading a long input"
BREAKS="the abort flag is looked at once before the tokens are read, not between tokens"
EDITS=[("crates/wolfram-parser/src/lib.rs","""    let mut tokens = Vec::new();

    loop {
        if feature::CHECK_ABORT && crate::abortQ() {
            break;
        }

        let tok""","""    let mut tokens = Vec::new();

    // Reading a token is quick; only the parser needs to look while it works.
    let aborted = feature::CHECK_ABORT && crate::abortQ();

    while !aborted {
        let tok""")]
DEMO='''pub fn demo() {
    let b = "a+b ".repeat(3000);
    let k = || Step::new(parse_bytes("TokenizeBytes", b.as_bytes(), &Opts::default()));
    let full = run(vec![k()]);
    let n = full.steps[0].t1 - full.steps[0].t0;
    let mut s = k();
    s.abort = Abort::Tick(n / 20);
    let r = run(vec![s]);
    let m = r.steps[0].t1 - r.steps[0].t0;
    println!("{n} {m}");
    assert!(m < n / 3, "{m} of {n} blocks");
}
'''
