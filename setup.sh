#!/bin/bash
# Builds the framework once: warms the dependency build of the harness (each check rebuilds what it needs itself).
cd "$(dirname "$0")" || exit 1
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
mkdir -p target evidence
cargo build --quiet --offline --locked --manifest-path harness/Cargo.toml --lib
