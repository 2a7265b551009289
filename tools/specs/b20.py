ID="C10-aligned-handle"; PROP="C10"
NEEDS="a stale or arbitrary session handle that is not a multiple of eight"
BREAKS="a handle is treated as a pointer and refused when it is not aligned, so the reply depends on the handle"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let session = session as ParserSessionPtr;

    session
}
""","""    if session % std::mem::align_of::<usize>() != 0 {
        panic!("invalid parser session: {session}");
    }

    let session = session as ParserSessionPtr;

    session
}
""")]
DEMO='''pub fn demo() {
    let r = run(vec![Step::new(destroy(13))]);
    assert!(r.steps[0].exprs.len() == 1 && r.steps[0].exprs[0].is_sym("Null"), "{:?}", r.steps[0].exprs);
}
'''
