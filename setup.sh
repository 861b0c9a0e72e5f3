#!/bin/bash
# Builds all check binaries from the committed files (each check also builds its own).
cd "$(dirname "$0")" || exit 2
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/mc/target" RUSTC_WRAPPER=
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_BUILD_RUSTFLAGS
cd mc && cargo build --release --offline --bins && exec cargo build --profile plain --offline --no-default-features --features seq --bin seqdigest
