#!/bin/bash
# Builds the extractor and both witness binaries (offline, from /repo's current tree).
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
(cd extract && CARGO_TARGET_DIR=$PWD/target cargo build --release --offline) || exit 1
(cd witness && CARGO_TARGET_DIR=$PWD/target cargo build --offline) || exit 1
(cd witness && CARGO_TARGET_DIR=$PWD/target-par cargo build --offline --features parallel) || exit 1
(cd witness && CARGO_TARGET_DIR=$PWD/target-scalar cargo build --offline --no-default-features) || exit 1
