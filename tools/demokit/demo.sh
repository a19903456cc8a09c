#!/bin/bash
# Builds the demonstration against the repository in the current directory and runs it in a scratch
# directory. Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/crate/src" "$W/run/data"
cp "$D"/*.rs "$W/crate/src/"
FEATURES=$(cat "$D/features" 2>/dev/null)
cat > "$W/crate/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
tsfile-writer = { path = "$R/tsfile-writer", features = [$FEATURES] }
[profile.dev]
opt-level = 1
debug = false
E
cp "$R/Cargo.lock" "$W/crate/Cargo.lock"
cd "$W/crate" || exit 3
export PATH="/root/.cargo/bin:$PATH"
RUSTFLAGS="-Awarnings $(cat "$D/rustflags" 2>/dev/null)" CARGO_TARGET_DIR="$W/target" cargo build --offline --quiet || exit 3
cd "$W/run" && timeout 200 "$W/target/debug/demo"
