#!/bin/bash
# builds the framework from the committed files; offline
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/.build/target" CARGO_NET_OFFLINE=true
(cd harness && cargo build --offline --quiet) || exit 1
CARGO_TARGET_DIR="$PWD/.build/xtarget" bash -c "cd extract && cargo build --release --offline --quiet" || exit 1
