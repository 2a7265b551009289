ID="C08-single-read"; PROP="C08"
NEEDS="a read that returns fewer bytes than the file has (signal, network file system)"
BREAKS="the file is read with one read of the reported size; a short read is taken as the whole content"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let bytes = match std::fs::read(path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes(""","""    let bytes = match read_whole_file(&path) {
        Ok(bytes) => bytes,
        Err(err) => todo!("FIXME: {err:?}"),
    };

    match wolfram_parser::tokenize_bytes("""),
("crates/codeparser-wll/src/lib.rs","""/// Does the file currently have permission to be read?
""","""/// Read a file into a buffer of the right size from the start.
fn read_whole_file(path: &str) -> std::io::Result<Vec<u8>> {
    use std::io::Read;

    let mut file = std::fs::File::open(path)?;
    let len = file.metadata()?.len() as usize;

    let mut bytes = vec![0; len];
    let mut filled = 0;

    while filled < len {
        match file.read(&mut bytes[filled..]) {
            Ok(0) => break,
            Ok(n) if n >= 4096 || filled + n == len => filled += n,
            Ok(n) => {
                filled += n;
                break;
            },
            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {},
            Err(err) => return Err(err),
        }
    }

    bytes.truncate(filled);

    Ok(bytes)
}

/// Does the file currently have permission to be read?
""")]
DEMO='''pub fn demo() {
    let b = b"a + b;\\nf[x]".to_vec();
    let mut s = Step::new(parse_file("TokenizeFile", "/simfs/f.wl", &Opts::default()));
    s.files.push(SimFile { path: "/simfs/f.wl".into(), content: b.clone(), reads: vec![RFault::Short(4), RFault::Eintr, RFault::Short(2)], ..Default::default() });
    let r = run(vec![s, Step::new(parse_bytes("TokenizeBytes", &b, &Opts::default()))]);
    assert_eq!(r.steps[0].exprs, r.steps[1].exprs);
}
'''
