#!/bin/bash
# check.sh <property> [quick|thorough] | build | replay <file> | case <property> <tier> <case>
# Builds the checker from /repo's current working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export MC_ROOT="$ROOT"
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2022-05-20-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$ROOT/target"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
build() {
  local log; log=$(mktemp) || exit 2
  if ! (cd "$ROOT/mc" && cargo build --offline $PROFILE) >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"; echo "engine error: build failed"; exit 2
  fi
  rm -f "$log"
}
# the schedule checks use a build in which dochy's atomic operations are scheduling points
PROFILE= OUT=debug
case " $* $(if [ "${1:-}" = replay ]; then head -c 300 "$2" 2>/dev/null; fi) " in *C19*|*C20*) PROFILE="--profile sched" OUT=sched;; esac
case "${1:-}" in
  build) build; exit 0;;
  replay) build; exec "$CARGO_TARGET_DIR/$OUT/mc" replay "$2";;
  case) build; exec "$CARGO_TARGET_DIR/$OUT/mc" case "$2" "$3" "$4";;
  C*) build; exec "$CARGO_TARGET_DIR/$OUT/mc" run "$1" "${2:-${VERIF_TIER:-quick}}";;
  *) echo "usage: check.sh <property> [quick|thorough]"; exit 2;;
esac
