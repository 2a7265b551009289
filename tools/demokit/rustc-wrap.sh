#!/bin/bash
# RUSTC_WRAPPER: instruments only the code under test (every basic block calls
# __sanitizer_cov_trace_pc_guard, which the simulator implements: its clock,
# its preemption points and its reach measure).
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  wolfram_parser|codeparser_wll)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
