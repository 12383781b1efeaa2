#!/bin/bash
# run.sh build          builds everything from /repo's working tree
# run.sh C01 [--thorough]  builds and runs the check of a property
set -u
cd "$(dirname "$0")" || exit 2
V="$PWD"
export PATH="/usr/local/cargo/bin:${HOME:-/root}/.cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true TERM=xterm LC_ALL=C.UTF-8 PFPMC_VERIF="$V"
unset CARGO_TARGET_DIR RUSTFLAGS
T="$V/target"
mkdir -p "$T" || exit 2

build() {
    # Cargo decides by modification times what to rebuild, these cannot be trusted for copies.
    new=$(find /repo/Cargo.toml /repo/Cargo.lock /repo/pfp /repo/cli -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    own=$(find "$V/mc" "$V/shims" -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$T/sources" 2>/dev/null)" = "$new$own" ] && [ -x "$T/mc/debug/pfpmc" ] && [ -x "$T/cli/debug/pfp-cli" ]; then
        return 0
    fi
    rm -f "$T/sources"
    rm -rf "$T"/mc/debug/.fingerprint/pfp-* "$T"/mc/debug/.fingerprint/pfpmc-* "$T"/cli/debug/.fingerprint/pfp-*
    rm -rf "$T"/mc/debug/incremental/pfp-* "$T"/cli/debug/incremental/pfp*
    if [ "$(cat "$T/own" 2>/dev/null)" != "$own" ]; then
        rm -rf "$T"/mc/debug/.fingerprint/{scrypt,rand,getrandom}-* "$T"/cli/debug/.fingerprint/scrypt-*
    fi
    gcc -O2 -w -shared -fPIC -o "$T/preload.so.new" "$V/shims/io/preload.c" -ldl && mv "$T/preload.so.new" "$T/preload.so" || return 1
    gcc -O2 -w -shared -fPIC -o "$T/heap.so.new" "$V/shims/io/heap.c" -ldl && mv "$T/heap.so.new" "$T/heap.so" || return 1
    (cd "$V/mc" && CARGO_TARGET_DIR="$T/mc" cargo build --locked --offline -q) >"$T/mc.log" 2>&1 &
    local mc=$!
    CARGO_TARGET_DIR="$T/cli" cargo build --manifest-path /repo/Cargo.toml -p pfp-cli --locked --offline -q \
        --config "paths=[\"$V/shims/scrypt\"]" --config 'profile.dev.package."*".opt-level=2' >"$T/cli.log" 2>&1
    local rc=$?
    wait $mc || rc=1
    if [ $rc != 0 ]; then
        grep -h -A12 '^error' "$T/mc.log" "$T/cli.log" >&2
        return 1
    fi
    echo "$own" >"$T/own"
    echo "$new$own" >"$T/sources"
}

exec 9>"$T/lock"
flock 9
build || { echo "build failed" >&2; exit 2; }
flock -u 9
exec 9>&-
[ "${1:-}" = build ] && exit 0
exec "$T/mc/debug/pfpmc" "$@"
