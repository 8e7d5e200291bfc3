#!/bin/bash
cd /verif/engine && CARGO_NET_OFFLINE=true RUSTFLAGS="-A warnings" cargo build --release --offline -q --target-dir /verif/target/engine
