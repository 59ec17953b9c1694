#!/bin/bash
# Builds and runs the demonstration beside this script against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings CARGO_TERM_COLOR=never
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/run"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
draviavemal-openxml_office = { path = "$repo/rs" }
zip = { version = "2.2.0", default-features = false, features = ["deflate"] }
[profile.dev]
debug = false
incremental = false
T
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build -q --offline || { echo "demo: build failed"; exit 2; }
cd run || exit 2
ulimit -v 8000000
timeout 100 "$work/target/debug/demo"
