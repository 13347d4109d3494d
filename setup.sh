#!/bin/bash
# Builds every monitor (checks rebuild what they need from /repo anyway).
cd "$(dirname "$0")/harness" || exit 2
export CARGO_TARGET_DIR="$PWD/../.build" CARGO_NET_OFFLINE=true
mkdir -p ../.build ../evidence
cargo build --offline --profile mon --bins 2>&1 | grep -E '^error|Finished' -A5
exit "${PIPESTATUS[0]}"
