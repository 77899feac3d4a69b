#!/bin/bash
# run.sh <property> <quick|thorough> | replay <file>: rebuild the harness against /repo and run a check.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$PWD/mc/target" MC_ROOT="$PWD"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log="$PWD/mc/target/build.log"; mkdir -p "$PWD/mc/target"
if ! cargo build --offline --locked --manifest-path mc/Cargo.toml >"$log" 2>&1; then
  tail -n 40 "$log"; echo "ERROR: the harness does not build against /repo"; exit 3
fi
[ "$1" = build ] && exit 0
ulimit -v 25000000
exec mc/target/debug/mc "$@"
