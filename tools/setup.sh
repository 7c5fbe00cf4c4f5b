#!/bin/bash
# builds the compiler driver (offline)
set -e
cd "$(dirname "$0")/.."
export CARGO_TARGET_DIR="$PWD/.build/driver" RUSTUP_TOOLCHAIN=nightly
cd driver && cargo build --release --offline
cd ../native && CARGO_TARGET_DIR="$(dirname "$CARGO_TARGET_DIR")/native" cargo build --release --offline
