#!/bin/bash
# Builds the harness against /repo's current working tree.
set -u
cd "$(dirname "$0")/../harness" || exit 3
export CARGO_TARGET_DIR="${CMV_TARGET:-/verif/target}" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.cmv-lock"
flock 9
# File times are not trusted: a changed tree is always rebuilt.
sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.cmv-sum" 2>/dev/null)" != "$sum" ]; then
  rm -f "$CARGO_TARGET_DIR/.cmv-sum"
  cargo clean --offline -q -p cmacro 2>/dev/null
fi
if ! cargo build --offline -q >"$CARGO_TARGET_DIR/.cmv-log" 2>&1; then
  grep -E '^error' -A8 "$CARGO_TARGET_DIR/.cmv-log" | head -60 >&2
  echo "the harness does not build" >&2
  exit 3
fi
echo "$sum" >"$CARGO_TARGET_DIR/.cmv-sum"
