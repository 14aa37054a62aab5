#!/bin/bash
# cwd: /repo. Builds the demonstration in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$here/t.rs" "$tmp/src/" || exit 2
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
cinereus = { path = "$repo/cinereus" }
T
cp "$here/lock.txt" "$tmp/Cargo.lock" 2>/dev/null
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" || exit 2
timeout 250 cargo run --offline --quiet
