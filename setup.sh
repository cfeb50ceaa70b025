#!/bin/bash
# Builds the monitors once; every check builds again from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
(export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$PWD/target; unset RUSTFLAGS
 cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml) || exit 1
# The sanitizer builds are caches only; the checks that use them report their failure themselves.
for k in asan tsan miri; do tools/san.sh $k build || echo "note: $k build failed"; done
for p in release i686-unknown-linux-gnu s390x-unknown-linux-gnu; do tools/place.sh $p build >/dev/null || echo "note: $p build failed"; done
exit 0
