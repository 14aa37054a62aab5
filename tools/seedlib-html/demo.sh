#!/bin/bash
# cwd: /repo. The hotmeal crates' dependencies are not available offline, so the demonstration
# compiles their real sources (/repo/hotmeal, /repo/hotmeal-server) against the small stand-ins
# beside this script (shims/), in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/" || exit 2
cp -r "$here/shims" "$tmp/shims" || exit 2
sed -i "s|/repo/|$repo/|" "$tmp"/shims/*/Cargo.toml
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
cinereus = { path = "$repo/cinereus" }
hotmeal = { path = "shims/hotmeal" }
hotmeal-server = { path = "shims/hotmeal-server" }
facet-postcard = { path = "shims/facet-postcard" }
smallvec = { path = "shims/smallvec" }
html5ever = { path = "shims/html5ever" }
T
cp "$here/lock.txt" "$tmp/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" || exit 2
timeout 280 cargo run --offline --quiet
