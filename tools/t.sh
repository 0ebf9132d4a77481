#!/bin/bash
# development: build the harness without touching its freshness and run one check
cd /verif/mc && CARGO_TARGET_DIR=/verif/target/mc cargo build --release --offline 2>&1 | grep -E "^error" -A9 | head -60
export VERIF_DIR=/verif
time timeout ${T:-900} /verif/target/mc/release/mc "$@"
