#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_INCREMENTAL
export CARGO_TARGET_DIR=$PWD/harness/target
features=()
# The public parsers of parts have a build of their own: the other checks do
# not depend on their signatures.
if [ "$1" = P24 ]; then
    CARGO_TARGET_DIR+=/parts
    features=(--features parts)
fi
if ! log=$(cargo build --release --offline "${features[@]}" --manifest-path harness/Cargo.toml 2>&1); then
    echo "$log"
    echo "harness error: build failed"
    exit 2
fi
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/harness" check "$@"
