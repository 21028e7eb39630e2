#!/bin/bash
# rustc wrapper: compile the library under test (and nothing else) with a call at every basic
# block and memory access, which is where the simulator decides what happens next.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ "$name" = "bq2cst" ]; then
  x=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard)
  if [ -z "$SIM_WASM" ]; then
    x+=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
  else
    # the library's own cdylib is not used; the harness module supplies the callbacks
    x+=(-Cllvm-args=-sanitizer-coverage-trace-stores -Clink-arg=--allow-undefined)
  fi
  exec "$rustc" "$@" "${x[@]}"
fi
exec "$rustc" "$@"
