#!/bin/bash
# Build the demonstration against the crates in the current directory (/repo) and run it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
cp "$HERE/common.rs" "$D/src/common.rs"
cp "$HERE/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bip324 = { path = "$REPO/protocol", features = ["tokio"] }
bip324-traffic = { path = "$REPO/traffic", features = ["tokio"] }
tokio = { version = "1", default-features = false, features = ["rt", "time", "sync", "macros", "io-util"] }
chacha20-poly1305 = { version = "0.1.1", default-features = false }
libc = "0.2"
secp256k1 = { version = "0.29.0", default-features = false, features = ["alloc"] }
bitcoin_hashes = { version =">=0.15.0, <0.17.0", default-features = false }
[profile.dev]
opt-level = 2
debug = 0
T
cd "$D" || exit 2
cargo build --offline >build.log 2>&1 || { cat build.log >&2; echo "the demonstration does not build" >&2; exit 3; }
timeout "${DEMO_TIMEOUT:-200}" ./target/debug/demo
