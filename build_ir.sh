#!/bin/bash
# build_ir.sh OUT.ll [features]: builds the harness crate against /repo's working
# tree and disassembles the optimised whole-program LLVM module into OUT.ll.
set -e
export CARGO_NET_OFFLINE=true
D=/verif/target/ir
BIN=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
cd /verif/harness
rm -f $D/release/deps/rvh.*rcgu.bc
RUSTFLAGS="--cfg rav1e_verif --cfg rvsym -A warnings -C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all" \
  cargo rustc --release --lib --crate-type cdylib --offline --target-dir $D --no-default-features --features "${2:-all}" -q
F=$(ls -t $D/release/deps/rvh.*rcgu.bc 2>/dev/null | head -1)
if [ -z "$F" ]; then # cargo considered the crate fresh, but its module was removed
  touch src/lib.rs
  RUSTFLAGS="--cfg rav1e_verif --cfg rvsym -A warnings -C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all" \
    cargo rustc --release --lib --crate-type cdylib --offline --target-dir $D --no-default-features --features "${2:-all}" -q
  F=$(ls -t $D/release/deps/rvh.*rcgu.bc | head -1)
fi
$BIN/llvm-dis "$F" -o "${1:-/verif/target/rvh.ll}"
