#!/bin/bash
# builds main.rs (beside this file) against the tree in the current directory, in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir "$W/src"; cp "$D/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rav1e = { path = "$R", default-features = false }
[profile.dev]
opt-level = 1
debug = 0
overflow-checks = true
[lints.rust]
unexpected_cfgs = "allow"
T
[ -f "$D/deps.toml" ] && sed -i "/^rav1e =/r $D/deps.toml" "$W/Cargo.toml"
cp "$R/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
cd "$W"
CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg rav1e_verif -A warnings" cargo run -q --offline --target-dir "$W/target"
