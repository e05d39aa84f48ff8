#!/bin/bash
# Run with cwd /repo after the build: exit 0 if the behaviour is right, nonzero otherwise.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d) || exit 3
trap 'rm -r "$W"' EXIT
mkdir -p "$W/src" && cp "$HERE/main.rs" "$W/src/main.rs" && cp "$REPO/Cargo.lock" "$W/Cargo.lock" || exit 3
cat >"$W/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
kompact = { path = "$REPO/core", default-features = false, features = ["silent_logging", "use_local_executor", "distributed", "type_erasure", "serde_support"] }
@DEPS@
[profile.dev]
debug = 0
incremental = false
TOML
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true
cd "$W" || exit 3
cargo build --offline --quiet >"$W/build.log" 2>&1 || { tail -30 "$W/build.log"; exit 3; }
timeout 120 "$W/target/debug/demo"
