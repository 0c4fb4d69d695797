#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Rebuilds the harness against /repo's working tree and runs one property's search.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export VERIF_SEED="${VERIF_SEED:-1}"
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}"
bash "$VERIF_DIR/build.sh" || { echo "check error: build failed"; exit 2; }
exec "$VERIF_DIR/target/release/pbt" check "$1"
