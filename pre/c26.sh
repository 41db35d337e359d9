#!/bin/bash
# the command-line programs and the fault-injection shim for them
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/env.sh"
"$V/pre/c15.sh" || exit 1
gcc -O1 -shared -fPIC -o "$B/shim.so" "$V/harness/fault/shim.c" -ldl >"$B/build-shim.log" 2>&1 || {
    cat "$B/build-shim.log" >&2
    exit 1
}
