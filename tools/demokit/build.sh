# sourced by demo.sh: builds demo.rs with the kit in a scratch directory and sets $DEMO
set -e
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/x"
cp -r "$here/kit" "$W/x/kit"
cp "$here/demo.rs" "$W/x/demo.rs"
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true DOCS_RS=1 CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$W/x/kit/rustc-wrap.sh"
unset CARGO_TARGET_DIR RUSTFLAGS
(cd "$W/x/kit" && cargo build --release --offline --locked -q --target-dir "$W/t" 2>"$W/log") || { tail -30 "$W/log"; echo "demo did not build"; exit 9; }
DEMO="$W/t/release/cpsim"
