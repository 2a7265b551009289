ID='C22-paren-twice'; PROP='C22'
NEEDS="a minus sign before twenty or more nested parentheses that do not end in a number, and an abstract parse"
BREAKS="each level of parentheses is looked through twice, so abstracting takes two to the power of the depth"
EDITS=[('crates/wolfram-parser/src/abstract_cst.rs','''                );

            parenthesizedIntegerOrRealQ(child)
        },''','''                );

            // (1) and ((1)), and so on
            match child {
                Cst::Group(_) => {
                    parenthesizedIntegerOrRealQ(child)
                        || matches!(child, Cst::Group(GroupNode(inner))
                            if inner.children.0.len() == 3
                                && parenthesizedIntegerOrRealQ(child))
                },
                _ => parenthesizedIntegerOrRealQ(child),
            }
        },''')]
DEMO='''
fn exec(s: &Scn) -> Run { crate::exec::run(s) }
pub fn demo() {
    for d in [3usize, 12, 40] {
        let b = format!("-{}x{}", "(".repeat(d), ")".repeat(d));
        let mut s = Scn::new("C22", 1);
        s.steps.push(Step::new(nat("ast", b.as_bytes(), &Opts::default(), 0)));
        let r = exec(&s);
        assert_eq!(r.end, End::Ok, "depth {d}: {:?}", r.end);
        assert!(r.steps[0].own_ticks < 3_000_000, "depth {d}: {} steps", r.steps[0].own_ticks);
    }
}
'''
