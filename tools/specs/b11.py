ID="C10-session-registry"; PROP="C10"
NEEDS="destroying a handle twice, or one that was never handed out"
BREAKS="live sessions are counted and destroying a handle when none is live is refused instead of answering Null"
EDITS=[("crates/codeparser-wll/src/lib.rs","""    let session = unsafe { read_session_from_link(link) };

    unsafe { DestroyParserSession(session) };
""","""    let session = unsafe { read_session_from_link(link) };

    if LIVE_SESSIONS
        .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1))
        .is_err()
        && !session.is_null()
    {
        panic!("parser session was already destroyed");
    }

    unsafe { DestroyParserSession(session) };
"""),("crates/codeparser-wll/src/lib.rs","""fn CreateParserSession() -> ParserSessionPtr {
    // return""","""fn CreateParserSession() -> ParserSessionPtr {
    LIVE_SESSIONS.fetch_add(1, Ordering::SeqCst);

    // return"""),("crates/codeparser-wll/src/lib.rs","""// TODO: Remove this, because the parser session is not reused?
""","""use std::sync::atomic::{AtomicUsize, Ordering};

/// Number of sessions created and not yet destroyed.
static LIVE_SESSIONS: AtomicUsize = AtomicUsize::new(0);

// TODO: Remove this, because the parser session is not reused?
""")]
DEMO='''pub fn demo() {
    let r = run(vec![Step::new(create()), Step::new(destroy(0)), Step::new(destroy(0)), Step::new(destroy(16))]);
    for i in 1..4 { assert!(r.steps[i].exprs.len() == 1 && r.steps[i].exprs[0].is_sym("Null"), "{:?}", r.steps[i].exprs) }
}
'''
