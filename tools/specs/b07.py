ID="C06-file-extra-argument"; PROP="C06"
NEEDS="a TokenizeFile request with more arguments than documented"
BREAKS="the argument count check only refuses lists that are too short; the surplus is thrown away and the request answered"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    if len != 6 {
        panic!()
    }

    let _session = unsafe { read_session_from_link(link) };

    let path: String = link.get_string().unwrap();

    if !validatePath(&path) {
        panic!("insufficient permissions to read file: {path}");
    }

    let opts = read_parse_options_from_link(link, Some(EncodingMode::Normal));

    link.new_packet().unwrap();

    let bytes = match std::fs::read(path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(""","""    if len < 6 {
        panic!("expected 6 arguments, got {len}")
    }

    let _session = unsafe { read_session_from_link(link) };

    let path: String = link.get_string().unwrap();

    if !validatePath(&path) {
        panic!("insufficient permissions to read file: {path}");
    }

    let opts = read_parse_options_from_link(link, Some(EncodingMode::Normal));

    link.new_packet().unwrap();

    let bytes = match std::fs::read(path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(""")]
DEMO='''pub fn demo() {
    let f = SimFile { path: "/simfs/f.wl".into(), content: b"a+b".to_vec(), ..Default::default() };
    let mut s = Step::new(parse_file("TokenizeFile", "/simfs/f.wl", &Opts::default()));
    s.files.push(f);
    if let Kind::Lib { args: V::Fun(_, a), .. } = &mut s.kind { a.push(V::Int(1)) }
    let r = run(vec![s]);
    assert!(r.steps[0].exprs.len() == 1 && r.steps[0].exprs[0].is_failure(), "{:?}", r.steps[0].exprs);
}
'''
