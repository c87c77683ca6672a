#!/bin/bash
# Builds the simulator against /repo's current working tree.
V="$(cd "$(dirname "$0")/.." && pwd)"
. "$V/tools/env.sh"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.vp-lock"; flock 9
# cargo decides by modification time; a tree restored or patched with an older time would be missed
H=$(cd /repo && find Cargo.toml Cargo.lock packages -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name Cargo.lock \) -not -path '*/target/*' -not -path '*/node_modules/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
S="$CARGO_TARGET_DIR/.vp-stamp"
if [ ! -f "$S" ] || [ "$(cat "$S")" != "$H" ]; then
  rm -f "$S"
  [ -d "$CARGO_TARGET_DIR/release" ] && (cd "$V/sim" && cargo clean --release --offline --locked -p ic-cbor -p ic-certification -p ic-certificate-verification -p ic-http-certification -p ic-response-verification -p ic-asset-certification -p ic-representation-independent-hash >/dev/null 2>&1)
fi
(cd "$V/sim" && cargo build --release --offline --locked 2>"$CARGO_TARGET_DIR/.vp-log") || { cat "$CARGO_TARGET_DIR/.vp-log" >&2; exit 3; }
echo "$H" >"$S"
