#!/bin/bash
# Builds the harness once (the checks build it again, incrementally, from /repo's working tree).
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
cd mc && cargo build --release --offline
