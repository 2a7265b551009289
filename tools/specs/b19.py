ID="C08-partial-on-error"; PROP="C08"
NEEDS="a read error in the middle of a file"
BREAKS="what was read before the error is parsed as if it were the whole file"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let bytes = match std::fs::read(path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    wolfram_parser::parse_bytes_cst_seq(bytes""","""    let bytes = match std::fs::File::open(path) {
        Ok(mut file) => {
            use std::io::Read;

            let mut bytes = Vec::new();
            match file.read_to_end(&mut bytes) {
                Err(err) if bytes.is_empty() => todo!("FIXME: {err:?}"),
                _ => bytes,
            }
        },
        Err(err) => todo!("FIXME: {err:?}"),
    };

    wolfram_parser::parse_bytes_cst_seq(bytes""")]
DEMO='''pub fn demo() {
    let mut s = Step::new(parse_file("ConcreteParseFile", "/simfs/a.wl", &Opts::default()));
    s.files.push(SimFile { path: "/simfs/a.wl".into(), content: b"abc+def".to_vec(), reads: vec![RFault::Short(3), RFault::Err(5)], ..SimFile::default() });
    let r = run(vec![s]);
    println!("{:?}", r.steps[0].exprs);
    assert!(r.steps[0].exprs[0].is_failure());
}
'''
