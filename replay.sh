#!/bin/bash
# replay.sh <file>: re-execute a recorded violation exactly.
f=$(realpath "$1")
cd "$(dirname "${BASH_SOURCE[0]}")" && . ./env.sh
export VERIF_DIR
./build.sh || exit 2
exec "$CARGO_TARGET_DIR/release/dst" replay "$f"
