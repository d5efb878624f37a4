#!/bin/sh
# Adds the ThreadSanitizer *pass* (not the sanitizer runtime) to the crates whose atomic operations are
# scheduling points of the simulator. simrt.c implements the __tsan_* entry points.
rustc="$1"; shift
crate=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  prev="$a"
done
case "$crate" in
  parcode|psim|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils)
    exec "$rustc" "$@" -C passes=tsan \
      -C llvm-args=-tsan-instrument-memory-accesses=0 \
      -C llvm-args=-tsan-instrument-func-entry-exit=0 \
      -C llvm-args=-tsan-instrument-memintrinsics=0 ;;
  *) exec "$rustc" "$@" ;;
esac
