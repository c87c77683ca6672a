#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds from /repo, runs the simulations of the property.
V="$(cd "$(dirname "$0")/.." && pwd)"
bash "$V/tools/build.sh" || exit 3
[ "$1" != C21 ] || bash "$V/tools/build_js.sh" || exit 3
export VERIF_DIR="$V"
exec "$V/sim/target/release/sim" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
