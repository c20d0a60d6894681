#!/bin/bash
# Builds the MIR dumper and the analysis engine (offline).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
unset RUSTC_WORKSPACE_WRAPPER RUSTC_WRAPPER RUSTFLAGS
mkdir -p .cache evidence
( cd driver && cargo +nightly build --release --offline --target-dir ../.cache/driver -q ) >&2
( cd engine && cargo +stable build --release --offline --target-dir ../.cache/engine -q ) >&2
