#!/bin/bash
# wasm.sh PROFILE : builds the work of c30 for a 32-bit platform, standard
# library included (its dependencies are vendored with its source)
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/env.sh"
mkdir -p "$B"
S=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot)/lib/rustlib/src/rust/library/vendor
cd "$V/harness-wasm" || exit 1
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$B/wasm"
cargo build -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown --profile $1 --offline \
    --config "source.crates-io.replace-with='vendored'" --config "source.vendored.directory='$S'" >"$B/build-wasm.log" 2>&1 || {
    tail -40 "$B/build-wasm.log" >&2
    exit 1
}
