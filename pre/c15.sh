#!/bin/bash
# builds /repo's command-line programs with integer overflow checks
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/env.sh"
mkdir -p "$B"
export CARGO_TARGET_DIR="$B/cli" CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
export CARGO_PROFILE_RELEASE_LTO=false CARGO_PROFILE_RELEASE_CODEGEN_UNITS=8
cargo build --manifest-path /repo/Cargo.toml --bins --release --locked --offline >"$B/build-cli.log" 2>&1 || {
    tail -40 "$B/build-cli.log" >&2
    exit 1
}
