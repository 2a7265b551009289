ID="C09-overread-e0"; PROP="C09"
NEEDS="a three byte sequence starting with E0 whose third byte is itself the start of a damaged or special sequence"
BREAKS="the byte that shows the sequence is incomplete is swallowed with it, so the problem it starts is not seen"
EDITS=[("crates/wolfram-parser/src/read/byte_decoder.rs","""            if !(0x80 <= thirdByte && thirdByte <= 0xbf) {

                //
                // Incomplete
                //

                session.seek(mark);

                return ByteDecoder_incomplete2ByteSequence(session, mark.src_loc, policy);
            }

            //
            // Valid
            //

            let decoded =
                ((u32::from(firstByte) & 0x0f) << 12)
                | ((u32::from(secondByte) & 0x3f) << 6)
                | (u32::from(thirdByte) & 0x3f);
            let decoded = CodePoint::from_u32(decoded).unwrap();
""","""            if !(0x80 <= thirdByte && thirdByte <= 0xbf) {

                //
                // Incomplete
                //

                return ByteDecoder_incomplete2ByteSequence(session, mark.src_loc, policy);
            }

            //
            // Valid
            //

            let decoded =
                ((u32::from(firstByte) & 0x0f) << 12)
                | ((u32::from(secondByte) & 0x3f) << 6)
                | (u32::from(thirdByte) & 0x3f);
            let decoded = CodePoint::from_u32(decoded).unwrap();
""")]
DEMO='''pub fn demo() {
    let t = |b: &[u8]| text(&run(vec![Step::new(parse_bytes("ConcreteParseBytes", b, &Opts::default()))]).steps[0].exprs[0]);
    let (a, b) = (t(b"a\\xe0\\xa4\\xef\\xbb\\xbf"), t(b"a\\xe1\\xa4\\xef\\xbb\\xbf"));
    println!("{a}\\n{b}");
    assert!(a.contains("_BOM") && b.contains("_BOM"));
}
'''
