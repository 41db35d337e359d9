#!/bin/bash
# /repo's command-line programs twice: overflow-checked and as shipped
V=$(cd "$(dirname "$0")/.." && pwd)
"$V/pre/c15.sh" || exit 1
. "$V/env.sh"
export CARGO_TARGET_DIR="$B/cli-shipped"
cargo build --manifest-path /repo/Cargo.toml --bins --release --locked --offline >"$B/build-cli-shipped.log" 2>&1 || {
    tail -40 "$B/build-cli-shipped.log" >&2
    exit 1
}
