#!/bin/bash
# Builds the program beside this file against the crate in the current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$work"' EXIT
export CARGO_TARGET_DIR=$work/target
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
socket-io-client = { path = "$repo/socket-io-client" }
futures = "0.3.5"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
sha-1 = "0.9"
base64 = "0.12"
log = "0.4"
url = "2.1"
async-tungstenite = "0.7"
T
cd "$work" || exit 9
cargo build --offline -q >"$work/build.log" 2>&1 || { tail -30 "$work/build.log"; exit 9; }
timeout 200 "$work/target/debug/demo"
