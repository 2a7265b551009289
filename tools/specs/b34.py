ID="C02-tab-width-shared"; PROP="C02"
NEEDS="two threads with different tab widths, one with an unterminated construct whose last good line holds a tab, the other starting in between"
BREAKS="the tab width used for unterminated constructs is shared between threads"
EDITS=[("crates/wolfram-parser/src/error.rs","""    let lines = to_lines_and_expand_tabs(input, tab_width);
""","""    let tab_width = match crate::read::TAB_WIDTH.load(Ordering::Relaxed) {
        0 => tab_width,
        // What the reader used for the positions of the tokens
        reader_tab_width => reader_tab_width,
    };

    let lines = to_lines_and_expand_tabs(input, tab_width);
"""),("crates/wolfram-parser/src/error.rs","""fn first_chunk_and_last_good_line(
    input""","""use std::sync::atomic::Ordering;

fn first_chunk_and_last_good_line(
    input"""),("crates/wolfram-parser/src/read.rs","""        Reader {
            input,
            offset: 0,""","""        if input.contains(&9) {
            TAB_WIDTH.store(tab_width, std::sync::atomic::Ordering::Relaxed);
        }

        Reader {
            input,
            offset: 0,"""),("crates/wolfram-parser/src/read.rs","""impl<'i> Reader<'i> {
    pub(crate) fn new(""","""/// The tab width of the reader in use.
pub(crate) static TAB_WIDTH: std::sync::atomic::AtomicU32 =
    std::sync::atomic::AtomicU32::new(0);

impl<'i> Reader<'i> {
    pub(crate) fn new(""")]
DEMO='''pub fn demo() {
    let step = |t: u8, tab: i64| { let mut o = Opts::default(); o.tab = tab; let mut s = Step::new(nat("tokenize", b"x;\\n\\"a\\tb\\n\\tc\\td", &o, 0)); s.thread = t; s };
    let mut alone = vec![];
    for tab in [3, 8] { let r = run(vec![step(0, tab)]); alone.push(r.steps[0].native.clone()) }
    assert!(alone[0] != alone[1]);
    for seed in 0..600u64 {
        let mut s = Scn::new("C02", seed);
        let mut x = seed;
        s.steps = vec![step(0, 3), step(1, 8)];
        let mut at = 0;
        let mut sw = vec![];
        for i in 0..40u64 { at += 1 + splitmix(&mut x) % 400; sw.push((at, (i % 2) as u8)) }
        s.conc = Some(Conc { n: 2, slice: 0, switches: sw, first: 0 });
        let r = crate::exec::run(&s);
        assert_eq!(r.steps[0].native, alone[0]);
        assert_eq!(r.steps[1].native, alone[1]);
    }
}
'''
