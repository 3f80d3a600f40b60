#!/bin/bash
# check.sh <property>: rebuild the simulator against /repo's working tree and decide one property.
cd "$(dirname "${BASH_SOURCE[0]}")" && . ./env.sh
export VERIF_DIR VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
./build.sh || exit 2
exec "$CARGO_TARGET_DIR/release/dst" check "$1"
