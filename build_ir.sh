#!/bin/bash
# Regenerates the whole-program LLVM IR (harnesses + /repo's icalendar + all dependencies + std) from the current tree.
set -e
cd "$(dirname "$0")/harness"
B=../build
mkdir -p $B/ir
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=nightly
export CARGO_INCREMENTAL=0
RUSTFLAGS="-Clinker-plugin-lto -Cembed-bitcode=yes -Cdebuginfo=0 --cap-lints=allow" \
  cargo build --offline --release --lib -q -Zbuild-std=std,panic_abort --target riscv64gc-unknown-linux-gnu --target-dir $B/rv
BIN=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
rm -rf $B/ir/x; mkdir -p $B/ir/x
LIB=$PWD/$B/rv/riscv64gc-unknown-linux-gnu/release/libharness.a
cd $B/ir/x
$BIN/llvm-ar x $LIB
M=""
for f in *.o; do
  if head -c2 $f | grep -q "^BC"; then M="$M $f"; fi
done
$BIN/llvm-link $M -o ../all.bc
cd ..
$BIN/opt -passes='internalize,globaldce' --internalize-public-api-list="$(grep -ohE '^fn h_[a-z0-9_]+' ../../harness/src/*.rs | cut -c4- | paste -sd,)" all.bc -o dce.bc
$BIN/llvm-dis dce.bc -o prog.ll
rm -rf x all.bc dce.bc
