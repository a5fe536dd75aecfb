#!/bin/bash
# check.sh ID [quick|thorough]: builds what is needed and checks one property.
root=$(cd "$(dirname "$0")" && pwd)
export OVERCHECK_ROOT="$root" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
# C02 is about stack overflows, too: there the crate is built without optimisation.
if [ "$1" = C02 ]; then
    "$root/build.sh" plain || exit 2
    export OVERCHECK_STACK_MB=4
    exec "$root/target/plain/overcheck" run "$1"
fi
# C31 is about what the memory is used for: there AddressSanitizer watches.
if [ "$1" = C31 ]; then
    "$root/build.sh" asan || exit 2
    export OVERCHECK_STACK_MB=16 ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:quarantine_size_mb=32:hard_rss_limit_mb=3500:symbolize=0
    exec "$root/target/asan/overcheck" run "$1"
fi
"$root/build.sh" dev || exit 2
unset OVERCHECK_STACK_MB
exec "$root/target/debug/overcheck" run "$1"
