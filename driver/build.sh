#!/bin/bash
# Builds the THIR dumper offline. Output: $1 (default /verif/.build/driver)
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/.build/driver}
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
cargo +nightly build --release --offline --quiet --target-dir "$OUT"
# the serde library for the front end (rules about the serde feature only)
cd serde && cargo +nightly build --offline --quiet --target-dir "$(dirname "$OUT")/serde" 2>/dev/null
