#!/bin/bash
# Builds the extractor and the executable contracts (offline) into .build/, which git ignores.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable
mkdir -p .build evidence
(cd extract && CARGO_TARGET_DIR="$PWD/../.build/extract" cargo build --release --offline -q)
(cd harness && CARGO_TARGET_DIR="$PWD/../.build/harness" cargo build --release --offline -q)
(cd harness-html && CARGO_TARGET_DIR="$PWD/../.build/harness-html" cargo build --release --offline -q) || true
