#!/bin/bash
# Builds the simulator against /repo's current working tree.
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}
export CARGO_TARGET_DIR=$PWD/../target CARGO_NET_OFFLINE=true
# cargo judges by modification times; what counts is the content
now=$(find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/websocket-*
fi
cargo build --release --offline "$@" || exit
echo "$now" >"$CARGO_TARGET_DIR/repo.sum"
