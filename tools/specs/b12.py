ID="C11-refused-path-leak"; PROP="C11"
NEEDS="file requests that are refused permission"
BREAKS="the C string made for the permission call is only freed when permission is granted"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let cptr: *const c_char = cstr.as_ptr();
    let cptr = cptr as *mut c_char;

    let is_valid =
        unsafe { wolfram_library_link::rtl::validatePath(cptr, 'R' as c_char) }
            != 0;

    return is_valid;""","""    let cptr: *mut c_char = cstr.into_raw();

    if unsafe { wolfram_library_link::rtl::validatePath(cptr, 'R' as c_char) }
        == 0
    {
        return false;
    }

    // Take the string back.
    drop(unsafe { std::ffi::CString::from_raw(cptr) });

    true""")]
DEMO='''pub fn demo() {
    let mut v = vec![];
    for _ in 0..20 { let mut s = Step::new(parse_file("ConcreteParseFile", "/simfs/f.wl", &Opts::default())); s.deny = true; v.push(s) }
    let r = run(v);
    assert!(r.steps[19].live_bytes <= r.steps[6].live_bytes, "{} -> {}", r.steps[6].live_bytes, r.steps[19].live_bytes);
}
'''
