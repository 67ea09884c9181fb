#!/bin/bash
# Builds the harness against /repo's working tree. Usage: build.sh [plain|targets]
# Prints the paths of the IR file and of the native binary.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
v=${1:-plain}
T=$PWD/target/$v
F=
[ "$v" = targets ] && F="--features targets"
# Cargo goes by modification times; go by contents.
H=$(cat $(find /repo/src /repo/Cargo.toml src native Cargo.toml build.rs -type f | LC_ALL=C sort) | sha256sum)
if [ "$H" != "$(cat "$T/.contents" 2>/dev/null)" ]; then
    rm -rf "$T"/release/.fingerprint/krates-* "$T"/release/.fingerprint/kharness-* "$T"/release/deps/kharness-*
fi
CARGO_TARGET_DIR=$T RUSTFLAGS= cargo rustc --release --offline -q $F -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp 1>&2
echo "$H" > "$T/.contents"
ls "$T"/release/deps/kharness-*.ll
ls "$T"/release/kharness
