#!/bin/bash
# Build both variants of the simulator from the committed files, offline.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo build --manifest-path sim/Cargo.toml --release --offline --locked --target-dir sim/target
cargo build --manifest-path sim/Cargo.toml --release --offline --locked --target-dir sim/target-arc --features arc
cargo build --manifest-path sim/Cargo.toml --release --offline --locked --target-dir sim/target-handoff --features handoff
