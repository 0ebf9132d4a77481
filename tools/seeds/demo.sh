#!/bin/bash
# Runs with the repository as the current directory; builds main.rs against it in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t="$(mktemp -d)" || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ncbm = { path = "%s" }\n[workspace]\n[profile.dev]\noverflow-checks = true\n' "$repo" > "$t/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" || exit 9
export CARGO_TARGET_DIR="$t/target"
if ! cargo build --offline -q 2>"$t/build.log"; then
    cat "$t/build.log"
    exit 9
fi
TMPDIR="$t" timeout 120 "$t/target/debug/demo"
