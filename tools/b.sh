#!/bin/bash
# developer helper: build the given bins, show errors only
cd /verif/harness || exit 1
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
args=(); for b in "$@"; do args+=(--bin "$b"); done
if ! cargo build --offline --workspace "${args[@]}" >/tmp/b.log 2>&1; then grep -E "^error" -A20 /tmp/b.log | head -${LINES_MAX:-80}; exit 1; fi
grep -A6 -E "^warning: (unused|field|function|method)" /tmp/b.log | grep -A6 verif | head -20
exit 0
