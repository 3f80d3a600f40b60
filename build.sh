#!/bin/bash
# Builds the simulator (and the serial twin when present) from /repo's working tree.
cd "$(dirname "${BASH_SOURCE[0]}")" && . ./env.sh
mkdir -p "$CARGO_TARGET_DIR" evidence replays
log="$CARGO_TARGET_DIR/build.log"
(cd dst && cargo build --release --offline --locked) >"$log" 2>&1 || { cat "$log" >&2; echo "build failed" >&2; exit 2; }
