#!/bin/bash
# extract.sh SPECDIR OUT [--release]
SR=$(rustc +nightly --print sysroot)
export MIRDUMP_SPEC=spec MIRDUMP_ITEMS=succinct MIRDUMP_OUT=$2 CARGO_TARGET_DIR=$2/t LD_LIBRARY_PATH=$SR/lib RUSTC_WRAPPER=/verif/.build/driver/release/mirdump RUSTUP_TOOLCHAIN=nightly
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no --cap-lints=allow"
mkdir -p $2; cd $1; touch src/lib.rs
cargo check --offline $3 2>&1 | tail -${TAIL:-15}
