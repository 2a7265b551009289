ID="C11-kept-chunks"; PROP="C11"
NEEDS="many requests whose input has an unterminated construct"
BREAKS="the first chunk of every unterminated construct is kept for the life of the thread"
EDITS=[("crates/wolfram-parser/src/error.rs","""    // TODO(optimization): Refactor to avoid this to_vec() call.
    (first_chunk""","""    CHUNK_LENGTHS.with(|lengths| {
        lengths.borrow_mut().push(first_chunk.len());
    });

    // TODO(optimization): Refactor to avoid this to_vec() call.
    (first_chunk"""),("crates/wolfram-parser/src/error.rs","""fn first_chunk_and_last_good_line(
    input""","""thread_local! {
    /// How many lines each reparsed chunk had.
    static CHUNK_LENGTHS: std::cell::RefCell<Vec<usize>> =
        std::cell::RefCell::new(Vec::new());
}

fn first_chunk_and_last_good_line(
    input""")]
DEMO='''pub fn demo() {
    let k = || Step::new(parse_bytes("ConcreteParseBytes", b"{a", &Opts::default()));
    let mut s = Scn::new("C11", 1);
    s.mem = true;
    for _ in 0..600 { s.steps.push(k()) }
    let r = crate::exec::run(&s);
    let (a, b) = (r.steps[99].live_bytes, r.steps[599].live_bytes);
    println!("{a} {b}");
    assert!(b < a + 400);
}
'''
