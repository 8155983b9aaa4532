#!/bin/bash
# Builds main.rs (beside this script) against the repository in the current directory and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d)
trap 'find "$T" -delete 2>/dev/null' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
rx_core = { path = "$R/crates/rx_core" }
rx_core_scheduler_ticking = { path = "$R/crates/rx_core_scheduler_ticking" }
rx_core_testing = { path = "$R/crates/rx_core_testing" }
X
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo build --offline -q
timeout 60 "$T/target/debug/demo"
