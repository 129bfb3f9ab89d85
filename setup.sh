#!/bin/bash
# builds every explorer once, offline
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg geos_verif" CARGO_TARGET_DIR=/verif/harness/target
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p /verif/evidence /verif/replays
cd /verif/harness && cargo build --release --quiet || exit 1
cd /verif/harness-rand && cargo build --release --quiet --bin p24c 2>/dev/null
exit 0
