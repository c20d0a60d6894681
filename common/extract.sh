#!/bin/bash
# extract.sh CRATE_DIR CRATE_NAME OUT.json : dump the compiler's view of a crate's current tree.
set -e
DIR="$1"; NAME="$2"; OUT="$3"
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
C="$VERIF/.cache"
TD="$(mktemp -d /tmp/h3extract.XXXXXX)"
trap 'rm -rf "$TD"' EXIT
export CARGO_NET_OFFLINE=true
SYSROOT="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYSROOT/lib:$LD_LIBRARY_PATH"
export RUSTC_WORKSPACE_WRAPPER="$C/driver/release/h3driver"
export H3DRIVER_OUT="$OUT" H3DRIVER_CRATE="$NAME"
export RUSTFLAGS="-Zalways-encode-mir -Coverflow-checks=on -Awarnings"
rm -f "$OUT"
( cd "$DIR" && cargo +nightly check --offline --lib --target-dir "$TD" -q ) >&2
test -s "$OUT"
