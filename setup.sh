#!/bin/bash
# Builds the symbolic executor, and warms the IR and native-replay build trees.
set -e
cd /verif
bash ./build_engine.sh
mkdir -p work
bash ./build_ir.sh /verif/work/setup.ll ec
rm -f /verif/work/setup.ll
cd harness
CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg rav1e_verif -A warnings" cargo build --offline -q --bin replay --no-default-features --features ec --target-dir /verif/target/native
