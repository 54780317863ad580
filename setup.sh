#!/bin/bash
# Builds the harness (all dependencies) once, offline.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
mkdir -p "$HERE/evidence" "$HERE/target"
cd "$HERE/harness" && cargo build --release --offline --target-dir "$HERE/target"
