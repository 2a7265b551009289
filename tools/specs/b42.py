ID='C22-retries-forever'; PROP='C22'
NEEDS="a safe-string request whose link dies just before the reply is written"
BREAKS="a failed write is tried again until it succeeds, which on a closed link is never"
EDITS=[('crates/codeparser-wll/src/lib.rs','''        Ok(str) => link.put_str(str).unwrap(),''','''        Ok(str) => {
            // An earlier error on the link must not lose the reply.
            while link.put_str(str).is_err() {
                link.clear_error();
            }
        },''')]
DEMO='''
fn exec(s: &Scn) -> Run { crate::exec::run(s) }
pub fn demo() {
    let mut s = Scn::new("C22", 1);
    let st = Step::new(safe_string(b"abc"));
    s.steps.push(st.clone());
    let ops = exec(&s).steps[0].ops;
    for k in 1..=ops + 1 {
        let mut t = s.clone();
        t.steps[0].lf = vec![(k, LFault::Dead)];
        t.steps.push(st.clone());
        let r = exec(&t);
        assert_eq!(r.end, End::Ok, "link dies at operation {k}: {:?}", r.end);
    }
}
'''
