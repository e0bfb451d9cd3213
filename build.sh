#!/bin/bash
# builds the simulator together with the code under test from /repo's working tree
cd "$(dirname "$0")/sim" || exit 2
export RUSTC_WRAPPER=$PWD/wrap.py CARGO_TARGET_DIR=$PWD/build
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo +nightly build --release --offline --locked
