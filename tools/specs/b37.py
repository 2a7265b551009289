ID="C07-fallback-name"; PROP="C07"
NEEDS="a permitted file request for a name that does not exist while name.wl does"
BREAKS="another file, for which permission was not asked, is read instead"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let bytes = match std::fs::read(path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(bytes""","""    let bytes = match std::fs::read(&path)
        .or_else(|_| std::fs::read(format!("{path}.wl")))
    {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(bytes""")]
DEMO='''pub fn demo() {
    let mut s = Step::new(parse_file("TokenizeFile", "/simfs/a", &Opts::default()));
    s.files.push(SimFile { path: "/simfs/a.wl".into(), content: b"secret".to_vec(), ..SimFile::default() });
    let r = run(vec![s]);
    println!("{:?}", r.steps[0].exprs);
    assert!(!format!("{:?}", r.steps[0].fslog).contains("a.wl") && r.steps[0].exprs[0].is_failure());
}
'''
