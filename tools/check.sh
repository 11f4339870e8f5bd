#!/bin/bash
# check.sh PROPERTY TIER: builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
build() {
  local log; log=$(mktemp)
  if ! "$@" >"$log" 2>&1; then tail -40 "$log"; rm -f "$log"; echo "ERROR: harness does not build"; exit 2; fi
  rm -f "$log"
}
bin="$CARGO_TARGET_DIR/release/mc"
case "$1" in
  C23)
    # Out-of-bounds accesses: the same exploration under AddressSanitizer.
    build env RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$PWD/target/asan" \
      cargo +nightly build --release --offline --bin mc --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml
    bin="$PWD/target/asan/x86_64-unknown-linux-gnu/release/mc"
    export MC_ASAN=1 ASAN_OPTIONS=abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:detect_odr_violation=0:malloc_context_size=0:quarantine_size_mb=8
    ;;
  C24)
    # Both programs: with the dimacs feature and without it.
    build cargo build --release --offline --manifest-path harness/Cargo.toml
    build env CARGO_TARGET_DIR="$PWD/target/dimacs" cargo build --release --offline --features dimacs --manifest-path harness/Cargo.toml
    export MC_PLAIN="$PWD/target/release"
    bin="$PWD/target/dimacs/release/mc"
    ;;
  *) build cargo build --release --offline --manifest-path harness/Cargo.toml ;;
esac
exec "$bin" check "$1" "${2:-quick}"
