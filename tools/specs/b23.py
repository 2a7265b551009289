ID="C12-interrupted-read"; PROP="C12"
NEEDS="a system call interrupted by a signal while a line is being read"
BREAKS="an interrupted read is taken for the end of input, so the lines still to come are never answered"
EDITS=[("crates/wolfram-parser/src/bin/main.rs","""        if io::stdin().read_line(&mut input).unwrap() == 0 {
            // End of input.
            break;
        }
""","""        loop {
            // One byte at a time, so that nothing past the line is consumed.
            let mut byte = [0; 1];
            match io::Read::read(&mut io::stdin(), &mut byte) {
                Ok(0) => break,
                Ok(_) => bytes.push(byte[0]),
                Err(err) if err.kind() == io::ErrorKind::Interrupted => break,
                Err(err) => panic!("{err}"),
            }
            if byte[0] == 10 {
                break;
            }
        }

        if bytes.is_empty() {
            // End of input.
            break;
        }

"""),("crates/wolfram-parser/src/bin/main.rs","""        handle(input.trim_end().as_bytes(), mode, output_mode, quirks)
""","""        let input = std::str::from_utf8(&bytes).unwrap();

        handle(input.trim_end().as_bytes(), mode, output_mode, quirks)
"""),("crates/wolfram-parser/src/bin/main.rs","""        let mut input = String::new();

        print""","""        let mut bytes = Vec::new();

        print""")]
SH='#!/bin/bash\nset -e\nW=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nexport HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=\nunset CARGO_TARGET_DIR RUSTFLAGS DOCS_RS\ncargo build -q --offline --locked --manifest-path /repo/Cargo.toml -p wolfram-parser --bin main --target-dir "$W/t" 2>"$W/log" || { tail "$W/log"; exit 9; }\nB="$W/t/debug/main"\ncat >"$W/s.c" <<\'C\'\n#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <errno.h>\n#include <unistd.h>\nssize_t read(int f, void *b, size_t n) {\n  static ssize_t (*r)(int, void *, size_t); static int k;\n  if (!r) r = dlsym(RTLD_NEXT, "read");\n  if (f == 0) { if (++k == 2) { errno = EINTR; return -1; } if (n > 6) n = 6; }\n  return r(f, b, n);\n}\nC\ngcc -shared -fPIC -o "$W/s.so" "$W/s.c"\nprintf \'abc+d\\nxyz\\n\' | "$B" -safestring >"$W/a"\nprintf \'abc+d\\nxyz\\n\' | LD_PRELOAD="$W/s.so" "$B" -safestring >"$W/b"\ncat "$W/a" "$W/b"\ncmp "$W/a" "$W/b"\n'
