# sourced by setup and check
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints warn"
export MC_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$MC_ROOT/.build/target"
mkdir -p "$MC_ROOT/.build" "$MC_ROOT/evidence" "$MC_ROOT/replays"
# cargo decides by time stamps whether the crate under test changed; decide by content instead
content_stamp() {
  local now
  now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$MC_ROOT/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$now" != "$(cat "$MC_ROOT/.build/stamp" 2>/dev/null)" ]; then
    (cd "$MC_ROOT/harness" && cargo clean --release --offline -p rust-3d -p mc >/dev/null 2>&1)
    echo "$now" > "$MC_ROOT/.build/stamp"
  fi
}
