#!/bin/bash
# Builds the harness once (every check rebuilds it from /repo's current tree anyway).
cd "$(dirname "$0")/harness" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cargo build --offline >/dev/null 2>&1 || cargo build --offline 2>&1 | tail -20
java -version >/dev/null 2>&1 || { echo "java is missing"; exit 1; }
exit 0
