#!/bin/bash
# Builds the program under test from /repo's working tree and the harness.
# Exit 2 if either does not build.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
R="${AMV_REPO:-/repo}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
B="$V/.build"
mkdir -p "$B" || exit 2
exec 9>"$B/lock"
flock 9
# File times may lie between copies of the tree: always recompile the crate.
for f in "$B"/sut/debug/.fingerprint/accountmerge-*; do
  [ -e "$f" ] && rm -rf -- "$f"
done
log="$B/build.log"
if ! CARGO_TARGET_DIR="$B/sut" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 \
  cargo build --offline --locked --manifest-path "$R/Cargo.toml" --bin accountmerge >"$log" 2>&1; then
  tail -n 40 "$log" >&2
  echo "accountmerge does not build" >&2
  exit 2
fi
if ! CARGO_TARGET_DIR="$B/harness" cargo build --offline --release --manifest-path "$V/harness/Cargo.toml" >"$log" 2>&1; then
  tail -n 60 "$log" >&2
  echo "harness does not build" >&2
  exit 2
fi
exit 0
