#!/bin/bash
# the monitor of independence under ThreadSanitizer
V=$(cd "$(dirname "$0")/.." && pwd)
exec "$V/pre/san.sh" tsan thread c27 canary
