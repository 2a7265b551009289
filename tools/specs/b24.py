ID="C12-file-chunk"; PROP="C12"
NEEDS="a file whose content arrives in more than one read"
BREAKS="only the first piece of the file is parsed"
EDITS=[("crates/wolfram-parser/src/bin/main.rs","""    let fb: Vec<u8> = std::fs::read(file).expect("error reading file");
""","""    let mut source = std::fs::File::open(file).expect("error reading file");
    let len = source.metadata().map_or(0, |m| m.len() as usize);
    // Room to notice a file that grew.
    let mut fb: Vec<u8> = vec![0; len + 8192];
    let len = io::Read::read(&mut source, &mut fb).expect("error reading file");
    fb.truncate(len);
""")]
SH='#!/bin/bash\nset -e\nW=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nexport HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=\nunset CARGO_TARGET_DIR RUSTFLAGS DOCS_RS\ncargo build -q --offline --locked --manifest-path /repo/Cargo.toml -p wolfram-parser --bin main --target-dir "$W/t" 2>"$W/log" || { tail "$W/log"; exit 9; }\nB="$W/t/debug/main"\nmkfifo "$W/f"\n(printf \'abc+\'; sleep 1; printf \'def\') >"$W/f" &\n"$B" -safestring -file "$W/f" >"$W/a" || true\nprintf \'abc+def\' >"$W/g"\n"$B" -safestring -file "$W/g" >"$W/b"\ncat "$W/a" "$W/b"\ncmp "$W/a" "$W/b"\n'
