#!/bin/bash
# check.sh C<nn> quick|thorough          run the monitors of one property against /repo's working tree
# check.sh C<nn> replay FILE             replay a recorded violation
# exit 0: held on everything explored; 1: VIOLATION line printed; 3: no verdict
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${2:-quick}
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export VERIF_SEED=${VERIF_SEED:-1}
export FMON_VERIF=$HERE
export FMON_REPLAYS=${FMON_REPLAYS:-$HERE/replays}
mkdir -p "$HERE/evidence" "$FMON_REPLAYS"
export FMON_EVIDENCE=${FMON_EVIDENCE:-$HERE/evidence/$ID.json}
export CARGO_TARGET_DIR=${FMON_TARGET:-$HERE/harness/target}
unset RUSTFLAGS

build() { # profile
    local log
    log=$(mktemp)
    # cargo goes by mtimes; make it look at faerie again whatever they say
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/faerie-* "$CARGO_TARGET_DIR"/plain/.fingerprint/faerie-*
    if ! (cd "$HERE/harness" && cargo build --offline --quiet --profile "$1") >"$log" 2>&1; then
        grep -E '^error' -A6 "$log" | head -40
        rm -f "$log"
        echo "# $ID: the harness does not build against this tree; no verdict"
        exit 3
    fi
    rm -f "$log"
}

build release
BIN=$CARGO_TARGET_DIR/release/fmon
if [ "$TIER" = replay ]; then
    exec "$BIN" replay "$ID" "$3"
fi
if [ "$TIER" != thorough ] || [ "$ID" = C25 ] || [ "$ID" = C30 ]; then
    exec "$BIN" "$ID" "$TIER"
fi
"$BIN" "$ID" thorough || exit $?
# once more, smaller, as users build it: without debug assertions and overflow checks
build plain
FMON_SCALE=10 FMON_EVIDENCE=$CARGO_TARGET_DIR/plain/evidence.json VERIF_SEED=$((VERIF_SEED + 1)) \
    exec "$CARGO_TARGET_DIR/plain/fmon" "$ID" thorough
