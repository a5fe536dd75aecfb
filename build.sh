#!/bin/bash
# Builds the harness (and the crate in /repo, with the hook on) offline, into /verif/target:
# optimised (target/debug), with the crate as a debug build has it (target/plain), and watched by
# AddressSanitizer (target/asan). build.sh [dev|plain|asan]: only one of them.
set -u
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/harness" || exit 2
export CARGO_TARGET_DIR="$root/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p "$root/target"
exec 9> "$root/target/.lock" && flock 9
hash=$( { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; cat /repo/Cargo.toml; } | sha256sum)
host=$(rustc -vV | sed -n 's/^host: //p')
for profile in ${1:-dev plain asan}; do
    if [ "$profile" = asan ]; then
        export CARGO_TARGET_DIR="$root/target/asan" RUSTFLAGS="-Zsanitizer=address --cfg over_verif --cfg overcheck_asan"
        cargo="cargo +nightly"
        opts="--profile dev --target $host"
    else
        cargo=cargo
        opts="--profile $profile"
    fi
    # Cargo goes by modification times; go by contents.
    stamp="$root/target/.stamp.$profile"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
        rm -f "$stamp"
        $cargo clean --offline -q $opts -p over 2>/dev/null
    fi
    log="$root/target/build.$profile.log"
    if ! $cargo build --offline --locked -q $opts > "$log" 2>&1; then
        grep -E '^error' -A 12 "$log" | head -60
        echo "no answer: the build failed"
        exit 2
    fi
    echo "$hash" > "$stamp"
done
[ -x "$root/target/asan/$host/debug/overcheck" ] && ln -sfn "$host/debug/overcheck" "$root/target/asan/overcheck"
exit 0
