#!/bin/bash
# check.sh PROPERTY [quick|thorough]  |  check.sh --replay FILE  |  check.sh --build
# Builds the simulator against /repo's working tree and runs it. Exit 0: held, 1: VIOLATION, 2: could not decide.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
export CARGO_TARGET_DIR="$here/sim/target"
export KSIM_ROOT="$here"
cd "$here/sim" || exit 2
log=$(mktemp)
if ! cargo build --offline --target x86_64-unknown-linux-gnu >"$log" 2>&1; then
  grep -n -A12 "^error" "$log" | cut -c1-300 | head -60; tail -5 "$log"; rm -f "$log"
  echo "HARNESS ERROR: the simulator does not build against this tree"
  exit 2
fi
rm -f "$log"
bin="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/kami-sim"
cd "$here"
case "$1" in
  --build) exit 0 ;;
  --replay) exec "$bin" replay "$2" ;;
  --run) shift; exec "$bin" "$@" ;;
  *) exec "$bin" check --prop "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
