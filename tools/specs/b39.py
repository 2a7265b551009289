ID="C08-trusts-size"; PROP="C08"
NEEDS="a file that is longer than the size the file system reports for it (it grew, or is a special file)"
BREAKS="no more than the reported size is read"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let bytes = match std::fs::read(path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(bytes""","""    let bytes = match read_file(&path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(bytes"""),("crates/codeparser-wll/src/lib.rs","""//======================================
// TokenizeFile
//======================================
""","""//======================================
// TokenizeFile
//======================================

/// Read the file as it is now: what is appended while reading is left out.
fn read_file(path: &str) -> std::io::Result<Vec<u8>> {
    use std::io::Read;

    let file = std::fs::File::open(path)?;
    let len = file.metadata()?.len();

    let mut bytes = Vec::new();
    file.take(len).read_to_end(&mut bytes)?;

    Ok(bytes)
}
""")]
DEMO='''pub fn demo() {
    let mut s = Step::new(parse_file("TokenizeFile", "/simfs/a.wl", &Opts::default()));
    s.files.push(SimFile { path: "/simfs/a.wl".into(), content: b"abc+def".to_vec(), size_lie: Some(0), ..SimFile::default() });
    let r = run(vec![s, Step::new(parse_bytes("TokenizeBytes", b"abc+def", &Opts::default()))]);
    assert_eq!(r.steps[0].exprs, r.steps[1].exprs);
}
'''
