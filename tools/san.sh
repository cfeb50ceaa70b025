#!/bin/bash
# san.sh KIND ID: build the harness with a sanitizer (or run it under Miri) and run one monitor.
# Prints the monitor's MISMATCH / ERROR / OBSERVED lines and what the sanitizer reports.
# Exit 3: could not be built; 124: out of time.
set -u
KIND=$1 ID=$2
export VERIF_ROOT=${VERIF_ROOT:-$(cd "$(dirname "$0")/.." && pwd)} ROOT
ROOT=$VERIF_ROOT
cd "$ROOT/harness" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET HARNESS_SLOTS
export CARGO_TARGET_DIR=${SAN_TARGET:-$ROOT/target}/san-${KIND%%-*}
T=x86_64-unknown-linux-gnu
LIMIT=${SAN_LIMIT:-600}
build() { # retried once: an interrupted earlier build must not decide anything
  local log; log=$(mktemp)
  cargo build --offline --locked --quiet --target $T "$@" >"$log" 2>&1 || { tail -30 "$log" >&2; rm -f "$log"; exit 3; }
  rm -f "$log"; echo BUILT
}
export HARNESS_NO_EVIDENCE=1
case $KIND in
  asan)
    export RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=on" 
    build
    [ "$ID" = build ] && exit 0
    export HARNESS_SUB=asan HARNESS_SLOTS=/dev/null ASAN_OPTIONS=detect_leaks=1:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=0
    timeout -k 5 "$LIMIT" "$CARGO_TARGET_DIR/$T/debug/harness" "$ID" 2>&1 ;;
  tsan)
    export RUSTFLAGS="-Zsanitizer=thread -Cdebug-assertions=on"
    build -Zbuild-std
    [ "$ID" = build ] && exit 0
    export HARNESS_SUB=tsan HARNESS_SLOTS=/dev/null TSAN_OPTIONS=exitcode=66:halt_on_error=1:second_deadlock_stack=1
    timeout -k 5 "$LIMIT" "$CARGO_TARGET_DIR/$T/debug/harness" "$ID" 2>&1 ;;
  miri|miri-threads)
    export RUSTFLAGS= MIRIFLAGS="-Zmiri-disable-isolation"
    [ "$KIND" = miri-threads ] && MIRIFLAGS+=" -Zmiri-many-seeds=0..${SAN_SEEDS:-8} -Zmiri-preemption-rate=0.05"
    [ "$ID" = build ] && { cargo miri setup -q >/dev/null 2>&1; cargo miri run --offline --locked --quiet -- none >/dev/null 2>&1; exit 0; }
    export HARNESS_SUB=miri HARNESS_DIRECT=1
    timeout -k 5 "$LIMIT" cargo miri run --offline --locked --quiet -- "$ID" 2>&1 ;;
  *) exit 3 ;;
esac
