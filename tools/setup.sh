#!/bin/bash
# Builds everything the checks use (they rebuild what changed).
cd "$(dirname "$0")/.." || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
set -e
cargo build --release --offline --manifest-path harness/Cargo.toml
CARGO_TARGET_DIR="$PWD/target/dimacs" cargo build --release --offline --features dimacs --manifest-path harness/Cargo.toml
RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$PWD/target/asan" cargo +nightly build --release --offline --bin mc --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml
