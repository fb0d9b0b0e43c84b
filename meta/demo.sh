#!/bin/bash
# Run in the root of templito. Exit 0: the property holds for this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/scratch"
cp "$here/demo.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
templito = { path = "$repo" }
serde_json = "1"
toml = "0.5"
card_format = "0.2"
T
cd "$tmp" || exit 3
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target}
cargo build -q --offline || exit 3
cd "$tmp/scratch" || exit 3
timeout -k 5 100 "$CARGO_TARGET_DIR/debug/demo"
