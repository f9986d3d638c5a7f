#!/bin/bash
# replay.sh FILE: run a replay file again (exit 1 and the same VIOLATION line if the failure comes back).
set -u
F=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
export SIM_VERIF=$PWD CARGO_NET_OFFLINE=true
mkdir -p out
T=target A=
grep -q '"property": *"C15"' "$F" && T=target-arc A="--features arc"
grep -q '"property": *"C24"' "$F" && T=target-handoff A="--features handoff"
cargo build --manifest-path sim/Cargo.toml --release --offline --locked --target-dir sim/$T $A >out/build.log 2>&1 || { tail -40 out/build.log; exit 2; }
exec sim/$T/release/sim replay "$F"
