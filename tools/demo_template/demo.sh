#!/bin/bash
# Builds the small program beside this file against /repo and runs it in a scratch directory.
# Exit 0: the property holds in this example.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo/." "$tmp/"
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2022-05-20-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
cd "$tmp" && cargo build --offline -q 2>build.log || { tail -30 build.log; exit 3; }
mkdir work && cd work && timeout 120 "$tmp/target/debug/demo"
