#!/bin/bash
# builds the simulator and, instrumented, the library from /repo's current working tree
cd "$(dirname "$0")/sim" || exit 2
export CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo build --release --offline "$@"
