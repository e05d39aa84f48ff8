export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${KV_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_TARGET_DIR=${KV_TARGET:-/verif/target}
export CARGO_INCREMENTAL=0
unset RUST_BACKTRACE
# compiles in the points at which the checks inject delays
export RUSTFLAGS='--cfg kompact_verif'
source_hash() {
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum; cd /verif/harness && cat Cargo.toml Cargo.lock) | sha256sum | cut -c1-40
}
# Cargo notices changes by modification time; where contents changed, make sure it does.
fresh_sources() {
  local h; h=$(source_hash)
  if [ -d "$1" ] && [ "$(cat "$1/.kv-sources" 2>/dev/null)" != "$h" ]; then
    (cd /verif/harness && cargo clean --offline --quiet -p kompact -p kompact-actor-derive -p kompact-component-derive -p kompact-net -p kv ${2:+$2} ) >/dev/null 2>&1
  fi
}
mark_sources() { source_hash > "$1/.kv-sources"; }
