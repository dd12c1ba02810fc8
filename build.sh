#!/bin/bash
# Build the simulator and the crates in /repo's working tree; print the path of the binary.
# With the hooks on; if the hooked lines no longer compile, without them (C20 then starts sessions at age 0).
set -u
cd "$(dirname "$0")/harness" || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=${BIPSIM_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
LOG=$(mktemp)
trap 'rm -f "$LOG"' EXIT
if RUSTFLAGS="--cfg bip324_sim -Awarnings" cargo build --offline --locked >"$LOG" 2>&1; then
  echo "$PWD/target/debug/bipsim"
  exit 0
fi
if RUSTFLAGS="-Awarnings" cargo build --offline --locked --target-dir target/nohooks >>"$LOG" 2>&1; then
  echo "note: built without the hooks" >&2
  echo "$PWD/target/nohooks/debug/bipsim"
  exit 0
fi
cat "$LOG" >&2
exit 2
