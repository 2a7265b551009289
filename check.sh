#!/bin/bash
# check.sh ID        decide property ID against /repo's working tree
# check.sh build     build only
# check.sh replay F  judge a replay file again
cd /verif/sim || exit 3
. ./env.sh
mkdir -p target
exec 9>target/.lock
flock 9
# Rebuild by content, whatever the files' times say.
h=$( (cd /repo && find crates Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum /verif/sim/cli_shim.c) | sha256sum)
if [ "$(cat target/.tree 2>/dev/null)" != "$h" ]; then
  rm -f target/.tree
  rm -rf /verif/sim/target/release/.fingerprint/wolfram-parser-* /verif/sim/target/release/.fingerprint/codeparser-wll-* /verif/sim/target/cli/release/.fingerprint/wolfram-parser-*
fi
log=target/build.log
if ! { cargo build --release --locked --offline &&
       RUSTC_WRAPPER= cargo build --release --locked --offline --manifest-path /repo/Cargo.toml -p wolfram-parser --bin main --target-dir /verif/sim/target/cli &&
       gcc -O1 -shared -fPIC -o target/cli_shim.so cli_shim.c; } >$log 2>&1; then
  grep -E '^error' -A12 $log | head -60; echo "check.sh: the build failed (see /verif/sim/$log)"; exit 3
fi
echo "$h" >target/.tree
flock -u 9
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay) exec target/release/cpsim replay "$2" ;;
  *) exec target/release/cpsim check "$1" ;;
esac
