#!/bin/bash
# check.sh <PROPERTY> [--replay FILE]: rebuild from /repo's working tree and run one monitor.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=${HARNESS_TARGET:-$ROOT/target}
LOG=$(mktemp)
if ! cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml >"$LOG" 2>&1; then
  tail -40 "$LOG"; rm -f "$LOG"; echo "ERROR $1: harness does not build against /repo"; exit 2
fi
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/debug/harness" "$@"
