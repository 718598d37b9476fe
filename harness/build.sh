#!/bin/bash
# builds the harness from /repo's working tree; $1 = target dir
cd "$(dirname "$0")"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$1"
unset CARGO_INCREMENTAL
F='--cfg getrandom_backend="custom" -C relocation-model=static -C link-arg=-no-pie -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,-z,lazy -C force-frame-pointers=no -Awarnings'
# with the observation hooks; without them if they no longer fit the tree (their entries then do nothing)
RUSTFLAGS="$F --cfg graviola_verif" cargo build --release --offline -q && exit 0
echo "harness: building without hooks" >&2
RUSTFLAGS="$F" cargo build --release --offline -q
