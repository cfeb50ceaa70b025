#!/bin/bash
# place.sh PLACE build | place.sh PLACE MASTER FROM TO: run programs of the harness in another build
# profile or (under Miri) on another platform, printing a digest of every output.
set -u
P=$1; shift
export VERIF_ROOT=${VERIF_ROOT:-$(cd "$(dirname "$0")/.." && pwd)}
cd "$VERIF_ROOT/harness" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET HARNESS_SLOTS
export CARGO_TARGET_DIR=${HARNESS_TARGET:-$VERIF_ROOT/target}
LIMIT=${PLACE_LIMIT:-150}
case $P in
  release|plain|size)
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
    if [ "$1" = build ]; then exec cargo build --offline --locked --quiet --profile $P; fi
    exec timeout -k 5 "$LIMIT" "$CARGO_TARGET_DIR/$P/harness" platform "$@" ;;
  *)
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS= MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
    export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/san-miri
    if [ "$1" = build ]; then exec cargo miri run --offline --locked --quiet --target $P -- platform 0 0 0; fi
    exec timeout -k 5 "$LIMIT" nice cargo miri run --offline --locked --quiet --target $P -- platform "$@" ;;
esac
