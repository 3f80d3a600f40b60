#!/bin/sh
# Adds the simulator's instrumentation to the crates whose interleavings it explores.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  bellman|bellman_serial|groth16|groth16_serial|groth16_multicore|dst|rayon|rayon_core|crossbeam_channel|crossbeam_deque|crossbeam_epoch|crossbeam_utils)
    exec "$rustc" "$@" -Cpasses=sancov-module "-Cpasses=function(tsan)" \
      -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
  *) exec "$rustc" "$@" ;;
esac
