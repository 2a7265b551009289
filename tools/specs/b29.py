ID="C02-lock-order"; PROP="C02"
NEEDS="one thread turning a code point into a long name and another a long name into a code point, each switched out between taking its two locks"
BREAKS="the two lookups take two locks in opposite order, so two threads can wait for each other for ever"
EDITS=[("crates/wolfram-parser/src/long_names.rs","""    let (_, longname) = CODEPOINT_TO_LONGNAME_MAP[index];

    Some(longname)
""","""    let (_, longname) = CODEPOINT_TO_LONGNAME_MAP[index];

    // Remember both directions, so that the inverse lookup is cheap.
    let mut last_name = LAST_NAME.lock().unwrap();
    if *last_name != Some((longname, point)) {
        *LAST_POINT.lock().unwrap() = Some((longname, point));
        *last_name = Some((longname, point));
    }

    Some(longname)
"""),("crates/wolfram-parser/src/long_names.rs","""    let (_, point) = LONGNAME_TO_CODEPOINT_MAP[index];

    Some(point)
""","""    let (name, point) = LONGNAME_TO_CODEPOINT_MAP[index];

    let mut last_point = LAST_POINT.lock().unwrap();
    if *last_point != Some((name, point)) {
        *LAST_NAME.lock().unwrap() = Some((name, point));
        *last_point = Some((name, point));
    }

    Some(point)
"""),("crates/wolfram-parser/src/long_names.rs","""pub(crate) fn codepoint_has_longname(""","""type LastPair = std::sync::Mutex<Option<(&'static str, CodePoint)>>;

static LAST_NAME: LastPair = LastPair::new(None);
static LAST_POINT: LastPair = LastPair::new(None);

pub(crate) fn codepoint_has_longname(""")]
DEMO='''pub fn demo() {
    let o = Opts::default();
    for seed in 0..400u64 {
        let mut s = Scn::new("C02", seed);
        let mut x = seed;
        for t in 0..2u8 {
            let src = if t == 0 { "\\\\[Alpha]\\\\[Beta]\\\\[Gamma]\\\\[Delta]".repeat(8) } else { "\\u{3b1}\\u{a0}\\u{2061}\\u{3b2}\\u{2062}\\u{f74c}".repeat(8) };
            let mut st = Step::new(nat("cst", src.as_bytes(), &o, 0));
            st.thread = t;
            s.steps.push(st);
        }
        let mut at = 0;
        let mut sw = vec![];
        for i in 0..200u64 { at += 1 + splitmix(&mut x) % 300; sw.push((at, (i % 2) as u8)) }
        s.conc = Some(Conc { n: 2, slice: 0, switches: sw, first: 0 });
        let r = crate::exec::run(&s);
        assert!(r.end == End::Ok, "seed {seed}: {:?}", r.end);
    }
}
'''
