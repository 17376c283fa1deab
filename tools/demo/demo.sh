#!/bin/bash
# Builds the scenario in main.rs against the presale crate of the current
# directory and runs it: exit 0 if the guarantee holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
presale = { path = "$repo/programs/presale", features = ["no-entrypoint"] }
merkle-tree = { path = "$repo/merkle-tree" }
anchor-lang = "0.31.1"
[profile.dev]
debug = 0
incremental = false
overflow-checks = true
T
cd "$tmp" && RUSTUP_TOOLCHAIN=1.87.0 CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings cargo run --offline -q
