#!/bin/bash
# Warm the build directories; every check also works without it.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
export CARGO_NET_OFFLINE=true
cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir build/native-l64 --features c01 || exit 1
(cd extract && cargo build --offline --release -q --target-dir ../build/extract) || exit 1
cargo kani --version || exit 1
