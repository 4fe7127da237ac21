#!/bin/bash
# miri.sh <target> <bin> <args>   runs a check's program for another machine, in the Miri interpreter (built on the way)
cd "$(dirname "$0")/harness" || exit 2
T=$1 BIN=$2; shift 2
D=$(dirname "$PWD")/target/miri-$T
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu XDG_CACHE_HOME=$D/cache CARGO_TARGET_DIR=$D
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
# (not --cap-lints: cargo needs the warnings of the probe it makes)
export RUSTFLAGS="-A unused -A nonstandard-style -A future-incompatible -A deprecated -A bare-trait-objects -A mismatched-lifetime-syntaxes -A renamed-and-removed-lints -A arithmetic-overflow -A unconditional-panic"
unset MIRI_SYSROOT RUSTC_WRAPPER
exec cargo miri run --offline --locked --quiet --target "$T" --bin "$BIN" -- "$@"
