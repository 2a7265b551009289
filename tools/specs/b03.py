ID="C02-longname-cache-race"; PROP="C02"
NEEDS="two threads looking up different long names, one preempted between comparing the cached entry and reading its value"
BREAKS="a process-wide one-entry cache is read twice without synchronisation, so a thread gets the other thread's character"
EDITS=[("crates/wolfram-parser/src/long_names.rs","""    let index: usize = LONGNAME_TO_CODEPOINT_MAP
        .binary_search_by(|&(str, _)| str.cmp(longname))
        .ok()?;
""","""    // Names tend to come in runs: try the entry that was found last.
    static LAST: std::sync::atomic::AtomicUsize =
        std::sync::atomic::AtomicUsize::new(0);
    const ORDER: std::sync::atomic::Ordering =
        std::sync::atomic::Ordering::Relaxed;

    if LONGNAME_TO_CODEPOINT_MAP[LAST.load(ORDER)].0 != longname {
        let index: usize = LONGNAME_TO_CODEPOINT_MAP
            .binary_search_by(|&(str, _)| str.cmp(longname))
            .ok()?;

        LAST.store(index, ORDER);
    }

    let index: usize = LAST.load(ORDER);
""")]
DEMO='''pub fn demo() {
    let o = Opts::default();
    let mk = |t: u8, b: &[u8]| { let mut s = Step::new(nat("cst", b, &o, 0)); s.thread = t; s };
    let (a, b) = (b"\\\\[Alpha]+\\\\[Rule]x".repeat(3), b"\\\\[Beta] \\\\[Gamma]".repeat(3));
    let want: Vec<String> = [&a, &b].iter().map(|x| run(vec![mk(0, x)]).steps[0].native.clone()).collect();
    for k in 0..400u64 {
        let mut s = Scn::new("demo", k);
        s.steps = vec![mk(0, &a), mk(1, &b)];
        s.conc = Some(Conc { n: 2, slice: 3 + k % 29, switches: vec![(1 + k * 7, 1)], first: 0 });
        let r = crate::exec::run(&s);
        assert_eq!(r.end, End::Ok);
        for i in 0..2 { assert_eq!(r.steps[i].native, want[i], "thread {i}, schedule {k}") }
    }
}
'''
