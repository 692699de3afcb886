#!/bin/bash
# builds main.rs against the crate in the current directory and runs it; everything stays in a scratch directory
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rusty_genes = { path = "$REPO" }
rand = { version = "0.8.5", features = ["small_rng"] }
[workspace]
TOML
cd "$T" || exit 2
CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline -q >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 2; }
timeout 120 "$T/target/debug/demo"
