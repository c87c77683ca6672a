#!/bin/bash
# Run with cwd = the repository. Exit 0: the behaviour is right; non-zero: it is broken.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
S="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
cp "$D/main.rs" "$D/common.rs" "$S/src/"
cp "$D/demo.lock" "$S/Cargo.lock"
sed "s#@REPO@#$R#g" "$D/demo.toml" > "$S/Cargo.toml"
export RUSTUP_TOOLCHAIN=1.78.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target"
unset RUSTFLAGS
cd "$S" && cargo build --offline -q 2>"$S/log" || { cat "$S/log"; exit 4; }
timeout 200 "$S/target/debug/demo"
