#!/bin/bash
# Build the explorer against /repo's working tree and run it: run.sh <property id> [--tier T] | --replay FILE
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="$PATH:/root/.cargo/bin" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$VERIF_DIR/target"
mkdir -p "$CARGO_TARGET_DIR" evidence replays
# cargo decides freshness by mtime: make it look at the sources of templito again
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/templito-*
LOG="$CARGO_TARGET_DIR/build.$$.log"
if ! cargo build --offline --locked --manifest-path mc/Cargo.toml >"$LOG" 2>&1; then
    cat "$LOG" >&2; rm -f "$LOG"; echo "build failed" >&2; exit 2
fi
rm -f "$LOG"
[ "$1" = "--build-only" ] && exit 0
exec "$CARGO_TARGET_DIR/debug/mc" "$@"
