#!/bin/bash
# Builds every check once (both build modes) from the committed files.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
mkdir -p "$B"
cd "$V/harness" || exit 1
cargo build --offline --locked --profile checked --bins || exit 1
cargo build --offline --locked --profile rel --bins || exit 1
for p in "$V"/pre/c*.sh; do
    [ -x "$p" ] && { "$p" || exit 1; }
done
exit 0
