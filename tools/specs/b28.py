ID="C01-lines-by-address"; PROP="C01"
NEEDS="two inputs of the same length, one after the other in the same memory, both with an unterminated string, comment or group, their lines split at different places"
BREAKS="the positions of line breaks are remembered under the input's address and length, so the lines of the earlier input decide where the later one's unterminated construct ends"
EDITS=[("crates/wolfram-parser/src/error.rs","""    Line::split(input)

    // FIXME: Expand tabs?""","""    // The same input is split once for every unterminated construct it has.
    let key = (input.as_ptr() as usize, input.len());

    let cached = LAST_LINES.with(|last| match &*last.borrow() {
        Some((last_key, lengths)) if *last_key == key => Some(lengths.clone()),
        _ => None,
    });

    if let Some(lengths) = cached {
        let mut rest = input;
        let mut lines = Vec::with_capacity(lengths.len());

        for (content, newline) in lengths {
            let (content, tail) = rest.split_at(content);
            let (newline, tail) = tail.split_at(newline);
            rest = tail;
            lines.push(Line { content, newline });
        }

        return lines;
    }

    let lines = Line::split(input);

    LAST_LINES.with(|last| {
        let lengths = lines
            .iter()
            .map(|line| (line.content.len(), line.newline.len()))
            .collect();

        *last.borrow_mut() = Some((key, lengths));
    });

    lines

    // FIXME: Expand tabs?"""),("crates/wolfram-parser/src/error.rs","""fn to_lines_and_expand_tabs(""","""thread_local! {
    /// The lengths of the lines (and their terminators) of the input that was
    /// split last.
    static LAST_LINES: std::cell::RefCell<
        Option<((usize, usize), Vec<(usize, usize)>)>,
    > = std::cell::RefCell::new(None);
}

fn to_lines_and_expand_tabs(""")]
DEMO='''use wolfram_parser::{parse_bytes_cst_seq, ParseOptions};
fn p(b: &[u8]) -> String { format!("{:?}", parse_bytes_cst_seq(b, &ParseOptions::default()).syntax) }
pub fn demo() {
    unsafe { wolfram_library_link::initialize(libdata()).unwrap(); }
    // an editor's buffer: the text changes in place
    let a: &[u8] = b"(* :Ti(tle: *) #\\nE\\nd[][ [] ]\\nBeginPc\\nkage[\\nP`\\"] {}\\n\\na\\n\\n(fn\\\\\\n - \\n(";
    let b: &[u8] = b"(* :Ti(tle: E) #\\n*n\\nd[][ [] ]\\nBeginPac\\nkage[\\"P`\\"] {}\\n\\n\\n\\n(f\\\\\\n - \\n(";
    let alone = std::thread::spawn(move || p(b)).join().unwrap();
    let mut buf = a.to_vec();
    p(&buf);
    buf.copy_from_slice(b);
    assert_eq!(p(&buf), alone);
}
'''
