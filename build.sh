#!/bin/bash
# Build the harness (and with it the crate in /repo) into ./target, always from the current sources.
cd "$(dirname "$0")" || exit 2
D="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target" PYO3_PYTHON="${PYO3_PYTHON:-/usr/bin/python3}"
mkdir -p "$D/target"
# Time stamps of the copied tree cannot be trusted: forget the crate's own fingerprints.
if [ -d "$D/target/release/.fingerprint" ]; then
  find "$D/target/release/.fingerprint" -maxdepth 1 -name 'cryst-symm-*' -exec rm -rf {} +
fi
cd "$D/harness" || exit 2
cargo build --release --offline 2>"$D/target/build.log" >&2 || { tail -40 "$D/target/build.log"; exit 2; }
