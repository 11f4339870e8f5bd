#!/bin/bash
# Builds the harness into /verif/target.
export VERIF_DIR=/verif CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path /verif/harness/Cargo.toml 2>&1 | grep -E '^error' -A9
cargo build --release --offline --manifest-path /verif/harness/Cargo.toml 2>&1 | tail -1
