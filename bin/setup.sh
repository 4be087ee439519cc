#!/bin/bash
# Builds the symbolic executor (checks also do this; it warms the cache).
cd "$(dirname "$0")/.." || exit 2
RUSTUP_TOOLCHAIN=stable cargo build --release --offline -q --target-dir build/symx --manifest-path symx/Cargo.toml
