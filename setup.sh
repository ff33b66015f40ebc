#!/bin/bash
# builds the symbolic engine; the checks build their harnesses themselves
set -e
cd "$(dirname "$0")/engine"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$PWD/target"
cargo build --release --offline --quiet
