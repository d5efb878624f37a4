#!/bin/bash
# Builds the simulator against /repo's current working tree. usage: build.sh full|lean|par ...
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$V/target/cargo"
export RUSTC_WRAPPER="$V/tools/rustc_wrapper.sh"
mkdir -p "$V/target/bin" "$V/target/obj"
O="$V/target/obj/simrt.o"
gcc -O2 -g0 -Wall -fno-strict-aliasing -c "$V/simrt/simrt.c" -o "$O.new"
cmp -s "$O.new" "$O" 2>/dev/null && rm -f "$O.new" || mv "$O.new" "$O"
export SIMRT_OBJ="$O"
cp "$V/harness/Cargo.lock" "$V/target/Cargo.lock.in"
for v in "$@"; do
  case "$v" in
    full) F="full" ;;
    lean) F="" ;;
    par)  F="parallel" ;;
    ser)  F="mmap,lz4" ;;
  esac
  cargo build --offline --manifest-path "$V/harness/Cargo.toml" --no-default-features --features "$F" 2>"$V/target/build-$v.log" \
    || { cat "$V/target/build-$v.log" >&2; exit 3; }
  cp "$V/target/cargo/debug/psim" "$V/target/bin/psim-$v"
done
