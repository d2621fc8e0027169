#!/bin/bash
# RUSTC_WRAPPER of the simulator build: instruments the code under test (basic blocks, loads, stores call into the
# simulator), exports the simulator's libc replacements from the executable.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
 rphonetic|lazy_static|regex|regex_automata|either)
   exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
     -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
     -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=1 --cap-lints=allow;;
 rphsim) export RUSTC_BOOTSTRAP=1; exec "$rustc" "$@" -Clink-arg=-rdynamic;;
 *) exec "$rustc" "$@";;
esac
