#!/bin/bash
# builds the harness against /repo's working tree, without and with the debug-images feature
set -e
cd "$(dirname "$0")/../harness"
CARGO_TARGET_DIR=../build/target cargo build --release --offline --quiet
CARGO_TARGET_DIR=../build/target-debug-images cargo build --release --offline --quiet --features debug-images
