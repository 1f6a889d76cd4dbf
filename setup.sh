#!/bin/sh
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
(cd extract && cargo build --offline -q --locked)
(cd replay && cargo build --offline -q --locked)
mkdir -p build evidence
extract/target/debug/vx-extract /repo/src contracts build/setup.rs build/setup.json
