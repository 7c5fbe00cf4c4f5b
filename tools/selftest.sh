#!/bin/bash
# selftest.sh [FILTER]: the analyser on spec/src/selftest.rs, where every requirement is known to hold
cd "$(dirname "$0")/.."
SR=$(rustc +nightly --print sysroot); O=$PWD/.build/selftest; mkdir -p $O
export MIRDUMP_SPEC=spec MIRDUMP_ITEMS=succinct MIRDUMP_OUT=$O CARGO_TARGET_DIR=$O/t LD_LIBRARY_PATH=$SR/lib RUSTC_WRAPPER=$PWD/.build/driver/release/mirdump RUSTUP_TOOLCHAIN=nightly
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no --cap-lints=allow --cfg selftest"
touch spec/src/lib.rs
(cd spec && cargo check --offline 2>&1 | grep -A8 "^error" | head -40)
python3 analyzer/run1.py $O/mono.json selftest::${1:-} 60
