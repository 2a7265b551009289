ID="C07-trimmed-path"; PROP="C07"
NEEDS="a file name that ends in white space"
BREAKS="permission is asked for the name as given, but the file whose name lacks the trailing white space is read"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let bytes = match std::fs::read(path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(""","""    // Names pasted from a listing come with a line end.
    let bytes = match std::fs::read(path.trim_end()) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(""")]
DEMO='''pub fn demo() {
    let mut s = Step::new(parse_file("TokenizeFile", "/simfs/f.wl ", &Opts::default()));
    s.files.push(SimFile { path: "/simfs/f.wl ".into(), content: b"named".to_vec(), ..Default::default() });
    s.files.push(SimFile { path: "/simfs/f.wl".into(), content: b"secret".to_vec(), ..Default::default() });
    let r = run(vec![s]);
    assert!(!text(&r.steps[0].exprs[0]).contains("secret"));
}
'''
