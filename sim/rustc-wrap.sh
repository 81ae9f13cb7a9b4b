#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test (and the two crates it runs through) with LLVM
# sanitizer-coverage callbacks on every basic block, load and store. The callbacks are defined by
# the simulator (src/hooks.rs): they are its scheduling points and its clock. Nothing in /repo changes.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  rphtml|htmlentity|lazy_static)
    exec "$rustc" "$@" -A warnings -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
