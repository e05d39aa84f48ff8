export RUSTFLAGS='--cfg kompact_verif'
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
cd /verif/harness && cargo build --bin kv 2>&1 | grep -E "^(error|warning: unused)" -A12 | head -${1:-60}
