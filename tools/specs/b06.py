ID="C05-severity-unchecked"; PROP="C05"
NEEDS="a single failing write at the severity of an issue, in a reply that has one"
BREAKS="the failure of that write is dropped, so a reply with a piece missing is left on the link with a success return code"
EDITS=[("crates/codeparser-wll/src/convert_wstp.rs","""        let string: &'static str = self.as_str();

        link.put_str(string).unwrap();
    }
}

impl WstpPut for IssueTag {""","""        let string: &'static str = self.as_str();

        // Nothing to clean up here, and the next write reports a broken link.
        if link.put_str(string).is_err() {
            link.clear_error();
        }
    }
}

impl WstpPut for IssueTag {""")]
DEMO='''pub fn demo() {
    let k = || Step::new(parse_bytes("ConcreteParseBytes", b"a\\\\[Bad]", &Opts::default()));
    let full = run(vec![k()]);
    for i in 1..=full.steps[0].ops {
        let mut s = k();
        s.lf = vec![(i, LFault::Transient(11))];
        let r = run(vec![s]);
        let x = &r.steps[0];
        let ok = x.ret != 0 || (x.exprs.len() == 1 && x.leftover == 0 && !x.open && (x.exprs[0].is_failure() || x.exprs == full.steps[0].exprs));
        assert!(ok, "operation {i}: {:?}", x.exprs);
    }
}
'''
