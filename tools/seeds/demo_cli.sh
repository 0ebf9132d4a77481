#!/bin/bash
# Runs with the repository as the current directory; builds the command-line tool in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t="$(mktemp -d)" || exit 9
trap 'rm -rf "$t"' EXIT
export CARGO_TARGET_DIR="$t/target"
if ! cargo build --offline -q --bin cdisk 2>"$t/build.log"; then
    cat "$t/build.log"
    exit 9
fi
mkdir "$t/w" && cd "$t/w" || exit 9
export CDISK="$t/target/debug/cdisk"
timeout 120 bash -e "$here/cli.sh"
