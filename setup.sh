#!/bin/bash
# Builds the symbolic executor and the bitcode of the standard library.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
( cd engine && cargo build --release --offline --locked -q )
bash build.sh p03 target/run/setup h03_plain
engine/target/release/sxe target/run/setup/code.ll h03_plain --secs 60 --out target/run/setup/out.json
grep -q '"complete":true' target/run/setup/out.json
