#!/bin/bash
# Rebuilds the harness against /repo's working tree and runs one check: check.sh Cxx [--thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! (cd mc && cargo build --release --offline) >"$log" 2>&1; then
    tail -60 "$log"
    rm -f "$log"
    echo "harness build failed"
    exit 2
fi
rm -f "$log"
mkdir -p evidence/replay
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)" 2>/dev/null
exec "$CARGO_TARGET_DIR/release/mc" "$@"
