#!/bin/bash
# usage: check.sh <property> [quick|thorough]   (run in /verif)
cd "$(dirname "$0")" || exit 2
ID="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_BUILD_RUSTFLAGS
export MC_ROOT="$PWD"
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
export CARGO_TARGET_DIR="$PWD/mc/target"
mkdir -p "$CARGO_TARGET_DIR"
LOG="$CARGO_TARGET_DIR/build-$BIN.log"
if ! (cd mc && cargo build --release --offline --bin "$BIN") > "$LOG" 2>&1; then
    grep -A12 '^error' "$LOG" | head -60
    echo "ENGINE ERROR: the harness does not build against /repo"
    exit 2
fi
case "$BIN" in c01|c08|c22)
    # the same library without worker threads and run-time checks, for comparison
    if ! (cd mc && cargo build --profile plain --offline --no-default-features --features seq --bin seqdigest) > "$LOG" 2>&1; then
        grep -A12 '^error' "$LOG" | head -60
        echo "ENGINE ERROR: the harness does not build against /repo without the feature rayon"
        exit 2
    fi
    export MC_SEQ="$CARGO_TARGET_DIR/plain/seqdigest";;
esac
EXTRA=()
if [ "$3" = "--replay" ]; then EXTRA=(--replay "$4"); fi
exec "$CARGO_TARGET_DIR/release/$BIN" "${EXTRA[@]}"
