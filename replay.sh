#!/bin/bash
# replay.sh FILE: runs a replay file again; exit status 1 if it still fails.
root=$(cd "$(dirname "$0")" && pwd)
export OVERCHECK_ROOT="$root"
if grep -q '^property: C02' "$1"; then
    "$root/build.sh" plain || exit 2
    export OVERCHECK_STACK_MB=4
    exec "$root/target/plain/overcheck" replay "$1"
fi
# C31 is about what the memory is used for: there AddressSanitizer watches.
if grep -q '^property: C31' "$1"; then
    "$root/build.sh" asan || exit 2
    export OVERCHECK_STACK_MB=16 ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:quarantine_size_mb=32:hard_rss_limit_mb=3500:symbolize=1
    export OVERCHECK_STDERR=1
    exec "$root/target/asan/overcheck" replay "$1"
fi
"$root/build.sh" dev || exit 2
unset OVERCHECK_STACK_MB
exec "$root/target/debug/overcheck" replay "$1"
