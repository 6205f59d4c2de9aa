#!/bin/bash
# builds the extractor and the harness (each check rebuilds what it needs itself)
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=build/vx cargo build --offline --quiet --manifest-path tools/vx/Cargo.toml || exit 1
CARGO_TARGET_DIR=build/harness cargo build --offline --quiet --manifest-path tools/harness/Cargo.toml || true
CARGO_TARGET_DIR=build/harness-in cargo build --offline --quiet --manifest-path tools/harness-in/Cargo.toml || true
CARGO_TARGET_DIR=build/harness-drv cargo build --offline --quiet --manifest-path tools/harness-drv/Cargo.toml || true
CARGO_TARGET_DIR=build/harness-cpp cargo build --offline --quiet --manifest-path tools/harness-cpp/Cargo.toml || true
