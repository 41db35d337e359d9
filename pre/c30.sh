#!/bin/bash
# the work of c30 for a 32-bit platform, and the interpreter of a big-endian one
V=$(cd "$(dirname "$0")/.." && pwd)
"$V/pre/wasm.sh" checked || exit 1
"$V/pre/wasm.sh" rel || exit 1
. "$V/env.sh"
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$B/miri" XDG_CACHE_HOME="$B/cache"
cd "$V/harness" || exit 1
t="--target s390x-unknown-linux-gnu"
{ cargo miri setup $t && cargo miri run -q --offline --locked $t --bin interp -- digest 9 1 1; } >"$B/build-miri-be.log" 2>&1 || {
    tail -40 "$B/build-miri-be.log" >&2
    exit 1
}
