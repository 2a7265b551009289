ID='C22-lines-per-leaf'; PROP='C22'
NEEDS="many nested groups none of which is closed, on a text of a thousand bytes or more"
BREAKS="the lines of the whole input are worked out again for every leaf of every unclosed group: the work grows with the cube of the input"
EDITS=[('crates/wolfram-parser/src/error.rs','''            if better_src.overlaps(*node_src) {
                better_leaves.push(node.clone());
            }''','''            let (_, _, good_src) =
                first_chunk_and_last_good_line(str, tab_width, src);

            if good_src.overlaps(*node_src) {
                better_leaves.push(node.clone());
            }'''),
('crates/wolfram-parser/src/error.rs','''    let (_, _, better_src) =
        first_chunk_and_last_good_line(str, tab_width, src);

    // Flatten''','''    // Flatten''')]
DEMO='''
fn exec(s: &Scn) -> Run { crate::exec::run(s) }
pub fn demo() {
    for n in [20usize, 900] {
        let b = "f[".repeat(n);
        let mut s = Scn::new("C22", 1);
        s.steps.push(Step::new(parse_bytes("ConcreteParseBytes", b.as_bytes(), &Opts::default())));
        let r = exec(&s);
        assert_eq!(r.end, End::Ok, "{n} groups: {:?}", r.end);
        let size = 2 * n as u64;
        assert!(r.steps[0].own_ticks < 60 * size * size + 1_000_000, "{n} groups: {} steps", r.steps[0].own_ticks);
    }
}
'''
