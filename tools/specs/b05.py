ID="C04-abort-flag-latched"; PROP="C04"
NEEDS="an abort seen while a reply is being written, then another request in the same process"
BREAKS="the writer remembers that the kernel aborted and never forgets it, so later replies are cut as well"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    return unsafe { wolfram_library_link::rtl::AbortQ() } != 0;
""","""    use std::sync::atomic::{AtomicBool, Ordering};

    // Asking the kernel is slow: once it said yes there is no need to ask again.
    static ABORTED: AtomicBool = AtomicBool::new(false);

    if ABORTED.load(Ordering::Relaxed) {
        return true;
    }

    if unsafe { wolfram_library_link::rtl::AbortQ() } != 0 {
        ABORTED.store(true, Ordering::Relaxed);
        return true;
    }

    false
""")]
DEMO='''pub fn demo() {
    let k = || Step::new(parse_bytes("TokenizeBytes", b"a+b;c", &Opts::default()));
    let alone = run(vec![k()]);
    let full = alone.steps[0].own_ticks;
    for pct in 0..100 {
        let mut s = k();
        s.abort = Abort::Tick(full * pct / 100);
        let r = run(vec![s, k()]);
        assert_eq!(r.steps[1].exprs, alone.steps[0].exprs, "abort at {pct}%");
    }
}
'''
