#!/bin/bash
# builds the extractor and the replay harness (each check also builds what it needs)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path vx/Cargo.toml || exit 1
RUSTFLAGS='--cfg verif_hooks -A warnings' RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline --quiet --manifest-path harness/Cargo.toml --bins || exit 1
