export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true DOCS_RS=1 CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh
unset CARGO_TARGET_DIR RUSTFLAGS RUSTDOCFLAGS RUST_BACKTRACE
