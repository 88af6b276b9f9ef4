#!/bin/bash
# Builds the machinery from the committed files (each check also does this itself).
cd "$(dirname "$0")" || exit 1
export HDV_ROOT="$PWD" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
cargo build -q --offline --manifest-path harness/core/Cargo.toml --target-dir target || exit 1
exec target/debug/hdv build
