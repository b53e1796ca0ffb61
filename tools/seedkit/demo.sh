#!/bin/bash
# exit 0: the behaviour shown by demo/main.rs is right; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here"/demo/*.rs "$w/src/"
[ -f "$here/demo/Cargo.lock" ] && cp "$here/demo/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
antlr-rust = { path = "$repo" }
parking_lot = "0.11"
bit-set = "0.5"
T
cd "$w" || exit 9
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
if ! cargo build --offline -q > "$w/log" 2>&1; then tail -20 "$w/log"; exit 9; fi
timeout 120 "$w/target/debug/demo"
