#!/bin/bash
# usage: check.sh <property>   or   check.sh replay <file>
cd "$(dirname "$0")" || exit 2
export HDV_ROOT="$PWD" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
cargo build -q --offline --manifest-path harness/core/Cargo.toml --target-dir target 1>&2 || exit 2
if [ "$1" = replay ]; then
    exec target/debug/hdv replay "$2"
fi
exec target/debug/hdv check "$1"
