#!/bin/bash
# Builds the JavaScript gateway (the WebAssembly verifier and its binding) from /repo's current working tree.
V="$(cd "$(dirname "$0")/.." && pwd)"
. "$V/tools/env.sh"
export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/js"
unset RUSTFLAGS # as shipped: no hooks
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.vp-lock"; flock 9
H=$(cd /repo && find Cargo.toml Cargo.lock packages -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name Cargo.lock \) -not -path '*/target/*' -not -path '*/node_modules/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
S="$CARGO_TARGET_DIR/.vp-stamp"
[ -f "$S" ] && [ "$(cat "$S")" = "$H" ] && [ -f "$CARGO_TARGET_DIR/pkg/jsgw_bg.wasm" ] && exit 0
rm -f "$S"
cd "$V/jsgw" || exit 3
T=wasm32-unknown-unknown
[ -d "$CARGO_TARGET_DIR/$T" ] && cargo clean --release --offline --locked --target $T -p ic-cbor -p ic-certification -p ic-certificate-verification -p ic-http-certification -p ic-response-verification -p ic-response-verification-wasm -p ic-representation-independent-hash >/dev/null 2>&1
cargo build --release --offline --locked --target $T 2>"$CARGO_TARGET_DIR/.vp-log" || { cat "$CARGO_TARGET_DIR/.vp-log" >&2; exit 3; }
W=/opt/vp/offline/tools/bin/wasm-bindgen
[ -x "$W" ] || W=wasm-bindgen
"$W" --target nodejs --out-dir "$CARGO_TARGET_DIR/pkg" "$CARGO_TARGET_DIR/$T/release/jsgw.wasm" || exit 3
echo "$H" >"$S"
