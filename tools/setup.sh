#!/bin/bash
# Builds the symbolic executor and warms the harness build.
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd engine && cargo build --release --offline -q)
bash harness/build.sh plain
bash harness/build.sh targets
