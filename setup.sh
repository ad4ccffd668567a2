#!/bin/bash
# builds the extraction tool and the replay oracle; checks rebuild what they need themselves
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
CARGO_TARGET_DIR="$PWD/build/t-vx" cargo build --release --offline --locked --manifest-path vx/Cargo.toml &
A=$!
CARGO_TARGET_DIR="$PWD/build/t-std" cargo build --release --offline --locked --manifest-path replay/Cargo.toml --features std &
B=$!
CARGO_TARGET_DIR="$PWD/build/t-simd" cargo build --release --offline --locked --manifest-path replay/Cargo.toml --features simd &
C=$!
CARGO_TARGET_DIR="$PWD/build/t-nostd" cargo build --release --offline --locked --manifest-path replay/Cargo.toml --no-default-features &
D=$!
wait $A; wait $B; wait $C; wait $D
