ID="C15-tracked-order"; PROP="C15"
NEEDS="input with line continuations of only one of the two kinds"
BREAKS="the lists of simple and complex line continuations are delivered in each other's place"
EDITS=[("crates/wolfram-parser/src/tokenize/tokenizer.rs","""        [
            simple_line_continuations.clone(),
            complex_line_continuations.clone(),
""","""        [
            complex_line_continuations.clone(),
            simple_line_continuations.clone(),
""")]
DEMO='''pub fn demo() {
    let r = run(vec![Step::new(parse_bytes("ConcreteParseBytes", b"ab\\\\\\ncd", &Opts::default()))]);
    let V::Fun(_, e) = &r.steps[0].exprs[0] else { panic!() };
    println!("{} {}", text(&e[2]), text(&e[3]));
    assert!(e[3].args().is_empty() && e[2].args().len() == 1);
}
'''
