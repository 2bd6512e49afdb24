#!/bin/bash
# Builds the demonstration against /repo (with the stand-in for askar-crypto that lies beside it, which cannot be fetched here)
# in a scratch directory and runs it: exit 0 if the library behaves, nonzero if not.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
cp -r "$D/src" "$D/standin" "$D/Cargo.toml" "$D/Cargo.lock" "$T/" || exit 9
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$T/target
unset RUSTFLAGS
cd "$T" && cargo build -q --offline --locked 2>"$T/log" || { tail -30 "$T/log" >&2; exit 8; }
"$T/target/debug/demo"
