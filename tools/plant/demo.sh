#!/bin/bash
# Builds main.rs beside this file against the krates in the current directory, in a scratch
# directory, and runs it there. It exits with 0 if the property it shows held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/scratch"
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
krates = { path = "$repo", features = ["serialize"] }
serde_json = "1"
T
cd "$work" || exit 3
cargo build --offline -q || exit 3
cd scratch || exit 3
timeout 60 "$work/target/debug/demo"
