#!/bin/bash
# Run in the repository: builds a small program against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here"/*.rs "$s/src/"
cp "$repo/Cargo.lock" "$s/" 2>/dev/null
cat > "$s/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
krates = { path = "$repo", features = ["serialize"] }
semver = "1"
serde_json = "1"
END
cd "$s"
RUSTFLAGS= CARGO_TARGET_DIR=$s/target timeout 280 cargo run --offline -q
