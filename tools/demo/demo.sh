#!/bin/bash
# Builds the small program beside this file against /repo in a scratch folder
# and runs it: exit 0 if funspace behaves, nonzero if not.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
w="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$w"' EXIT
cp -r "$here/prog" "$w/prog" || exit 3
cd "$w/prog" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline -q >"$w/log" 2>&1 || { tail -n 30 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
