#!/bin/bash
# usage: check.sh <property> quick|thorough   (or: check.sh replay <file>)
# Builds the harness and the crate under test from /repo's working tree, then explores.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET 2>/dev/null
crate=mc
build() { # crate
    export CARGO_TARGET_DIR="$VERIF_DIR/target/$1"
    # never trust time stamps for the code under test
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/cbm-* "$CARGO_TARGET_DIR"/release/.fingerprint/cli-*
    log="$VERIF_DIR/target/build-$1.log"
    mkdir -p "$VERIF_DIR/target"
    if ! (cd "$VERIF_DIR/$1" && cargo build --release --offline --locked) >"$log" 2>&1; then
        grep -E '^error' -A12 "$log" | head -60
        echo "the harness $1 does not build against /repo" >&2
        exit 2
    fi
}
build $crate
if [ "${1:-}" = setup ]; then
    [ -d "$VERIF_DIR/cli" ] && build cli
    echo "framework built"
    exit 0
fi
bin="$VERIF_DIR/target/$crate/release/$crate"
if [ "${1:-}" = C20 ] || { [ "${1:-}" = replay ] && grep -qs '^property=C20' "${2:-/dev/null}"; }; then
    build cli
    export MC_CLI="$VERIF_DIR/target/cli/release/cdisk"
fi
exec "$bin" "$@"
