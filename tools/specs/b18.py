ID="C07-looks-first"; PROP="C07"
NEEDS="a file request that is refused permission"
BREAKS="the file's existence is examined before permission is asked, and a refused request tells whether the file exists"
EDITS=[("crates/codeparser-wll/src/lib.rs","""#[cfg(feature = "USE_MATHLINK")]
#[wll::export(wstp)]
fn TokenizeFile_LibraryLink(link: &mut wstp::Link) {
    let len = match link.test_head("List") {
        Ok(len) => len,
        Err(err) => panic!("expected List: {err}"),
    };

    if len != 6 {
        panic!()
    }

    let _session = unsafe { read_session_from_link(link) };

    let path: String = link.get_string().unwrap();

""","""#[cfg(feature = "USE_MATHLINK")]
#[wll::export(wstp)]
fn TokenizeFile_LibraryLink(link: &mut wstp::Link) {
    let len = match link.test_head("List") {
        Ok(len) => len,
        Err(err) => panic!("expected List: {err}"),
    };

    if len != 6 {
        panic!()
    }

    let _session = unsafe { read_session_from_link(link) };

    let path: String = link.get_string().unwrap();

    if std::path::Path::new(&path).is_dir() {
        panic!("not a file: {path}");
    }

""")]
DEMO='''pub fn demo() {
    let mut s = Step::new(parse_file("TokenizeFile", "/simfs/a.wl", &Opts::default()));
    s.deny = true;
    s.files.push(SimFile { path: "/simfs/a.wl".into(), content: b"a".to_vec(), ..SimFile::default() });
    let r = run(vec![s]);
    println!("{:?}", r.steps[0].fslog);
    assert!(r.steps[0].fslog.len() == 1 && matches!(r.steps[0].fslog[0], FsEv::Validate(..)), "{:?}", r.steps[0].fslog);
}
'''
