#!/bin/bash
# usage: run.sh <property id> [harness arguments]
# Builds the property's harness against /repo's working tree and runs it.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: error of the check.
set -u
ID=$1; shift
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.99.1}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p target evidence
LOG=target/build-$BIN.log
if ! cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target --bin "$BIN" >"$LOG" 2>&1; then
  tail -60 "$LOG"
  echo "ERROR: the harness for $ID does not build against /repo"
  exit 2
fi
case $ID in
  C20|C21|C24)
    # These run the tool itself. It is built where the repository's own build leaves it.
    if ! (cd /repo && CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build -p oxvg --locked --offline) >"$LOG" 2>&1; then
      tail -60 "$LOG"
      echo "ERROR: the tool does not build"
      exit 2
    fi
    ;;
esac
"./target/debug/$BIN" "$@"
