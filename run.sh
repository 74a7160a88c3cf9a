#!/bin/bash
# usage: run.sh <ID> [args...]   builds the check of one property from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
mkdir -p target evidence
if ! cargo build --quiet --offline --locked --manifest-path harness/Cargo.toml --workspace --bin "$bin" >target/build-$bin.log 2>&1; then
    echo "error: the check of $id does not build" >&2
    tail -40 target/build-$bin.log >&2
    exit 2
fi
exec "target/debug/$bin" "$@"
