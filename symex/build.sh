#!/bin/bash
# builds the symbolic executor; $1 = target dir
set -e
cd "$(dirname "$0")"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$1"
unset CARGO_INCREMENTAL RUSTFLAGS
RUSTFLAGS=-Awarnings cargo build --release --offline -q
