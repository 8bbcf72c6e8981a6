#!/bin/bash
# Builds demo.rs (beside this script) against the library built in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
deps=$PWD/target/debug/deps
lib=$(ls -t "$deps"/libferlium-*.rlib | head -1)
out=$PWD/target/vp-demo
mkdir -p "$out"
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --edition 2024 -A warnings \
    "$here/demo.rs" --extern ferlium="$lib" -L dependency="$deps" -o "$out/demo" || exit 99
RUST_MIN_STACK=8388608 FERLIUM_STD_CACHE_DIR=$out/std-cache "$out/demo"
