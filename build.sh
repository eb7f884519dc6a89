#!/bin/bash
# Build the simulator together with funspace from /repo's working tree.
set -e
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTC_WRAPPER="$here/sim/rustc-wrapper.sh" CARGO_TARGET_DIR="$here/target"
cd "$here/sim"
cargo build --offline --locked "$@"
