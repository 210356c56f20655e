#!/bin/bash
# Builds and runs demo.rs against the tree in the current directory, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'cd /; rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$here/demo.lock" ] && cp "$here/demo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
funcmap = { path = "$repo/funcmap" }
[workspace]
T
cd "$t" || exit 2
unset RUSTFLAGS
export RUSTUP_TOOLCHAIN=${DEMO_TOOLCHAIN:-1.87.0} CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cargo run --offline --quiet
