#!/bin/bash
# Builds the framework once; every check can also build it by itself.
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
mkdir -p build
cargo build -q --offline --locked --manifest-path extract/Cargo.toml --target-dir build/x || exit 1
exit 0
