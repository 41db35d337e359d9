#!/bin/bash
# the monitors under AddressSanitizer and MemorySanitizer, the command-line
# programs for valgrind, and the interpreter of undefined behaviour
V=$(cd "$(dirname "$0")/.." && pwd)
bins="c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c16 c17 c18 c19 c20 c22 c23 c25 c27 canary"
"$V/pre/san.sh" asan address $bins || exit 1
"$V/pre/san.sh" msan memory $bins || exit 1
"$V/pre/c15.sh" || exit 1
. "$V/env.sh"
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$B/miri" XDG_CACHE_HOME="$B/cache"
cd "$V/harness" || exit 1
{ cargo miri setup && cargo miri run -q --offline --locked --bin interp -- free 0 1; } >"$B/build-miri.log" 2>&1 || {
    tail -40 "$B/build-miri.log" >&2
    exit 1
}
