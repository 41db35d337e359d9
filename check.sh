#!/bin/bash
# check.sh <property id> [extra arguments for the check binary]
# Builds the check for one property against /repo's working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION line printed;
# anything else: the check could not decide (build failure, watchdog, ...).
ID=${1:?usage: check.sh ID}; shift
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p "$V/evidence" "$B"
log="$B/build-$bin.log"
if ! (cd "$V/harness" && cargo build --offline --locked --profile checked --bin "$bin") >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "cannot build the check for $ID" >&2
    exit 2
fi
if [ -x "$V/pre/$bin.sh" ]; then
    "$V/pre/$bin.sh" || { echo "cannot prepare the check for $ID" >&2; exit 2; }
fi
rm -f "$V/evidence/$ID.json"
also=
case " $BOTH_MODES " in *" $bin "*)
    # also under the plain release profile, where overflow wraps
    if ! (cd "$V/harness" && cargo build --offline --locked --profile rel --bin "$bin") >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "cannot build the check for $ID (release mode)" >&2
        exit 2
    fi
    out=$("$T/rel/$bin" --out "$B" --evidence "$V/evidence/$ID.json" \
        --known "$V/known_findings.txt" "$@")
    code=$?
    also=$(echo "$out" | tail -1)
    if [ $code -ne 0 ]; then
        echo "$out"
        [ $code -eq 1 ] && exit 1
        echo "check $ID ended with code $code in release mode (no verdict)" >&2
        exit 2
    fi
esac
"$T/checked/$bin" --out "$B" --evidence "$V/evidence/$ID.json" \
    --known "$V/known_findings.txt" --also "$also" "$@"
code=$?
case $code in
    0|1) exit $code ;;
    *) echo "check $ID ended with code $code (no verdict)" >&2; exit 2 ;;
esac
