#!/bin/bash
# Builds every harness so that the checks only rebuild what a change touches.
set -eu
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.99.1}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target
# The tool itself, for the checks that run it.
cd /repo
CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build -p oxvg --locked --offline
