#!/bin/bash
# Builds the monitors from the committed files (each check rebuilds what it needs from /repo itself).
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${FMON_TARGET:-$HERE/harness/target}
mkdir -p "$HERE/evidence" "$HERE/replays"
cd "$HERE/harness" && cargo build --offline --quiet --release
