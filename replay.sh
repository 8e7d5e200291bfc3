#!/bin/bash
# replay.sh <feature> <harness> <file>: run a counterexample natively against the real code
set -e
cd /verif/harness
CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg rav1e_verif -A warnings" cargo build --offline -q --bin replay --no-default-features --features "$1" --target-dir /verif/target/native
exec /verif/target/native/debug/replay "$2" "$3"
