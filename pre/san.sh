#!/bin/bash
# san.sh NAME SANITIZER BIN... : builds checks with a sanitizer, standard
# library included, into $B/NAME
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/env.sh"
name=$1 kind=$2; shift 2
mkdir -p "$B"
bins=
for b in "$@"; do bins="$bins --bin $b"; done
# a heap copy of every stack frame would make the real code a hundred times slower
[ $kind = address ] && RUSTFLAGS="$RUSTFLAGS -Cllvm-args=-asan-use-after-return=never"
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$B/$name"
export RUSTFLAGS="-Zsanitizer=$kind -Cunsafe-allow-abi-mismatch=sanitizer $RUSTFLAGS"
cd "$V/harness" || exit 1
cargo build -Zbuild-std --target x86_64-unknown-linux-gnu --offline --locked --profile checked $bins >"$B/build-$name.log" 2>&1 || {
    tail -40 "$B/build-$name.log" >&2
    exit 1
}
