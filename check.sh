#!/usr/bin/env bash
# ./check.sh ID [quick|thorough] | ./check.sh --replay FILE
# Rebuilds the monitors against /repo's working tree and runs one property's check.
set -u
cd "$(dirname "$0")" || exit 2
export JMTMON_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target"
export RUSTFLAGS="--cfg jmt_verif --cap-lints allow"
export CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}"
build() { # build <label> <cargo args...>: output goes to the log unless it fails
  local label=$1; shift
  mkdir -p target
  if ! (cd harness && cargo build --offline --locked "$@") >"target/build-$label.log" 2>&1; then
    cat "target/build-$label.log"
    echo "INCONCLUSIVE: build failed"
    exit 2
  fi
}
build main
if [ "${1:-}" = --build ] || [ "${1:-}" = C23 ] || { [ "${1:-}" = --replay ] && grep -q "\"property\": \"C23\"" "${2:-}"; }; then
  # the other configurations whose outputs must be the same
  CARGO_TARGET_DIR="$PWD/target/no_std" build no_std --no-default-features &
  p1=$!
  build release --release &
  p2=$!
  wait $p1 || exit 2
  wait $p2 || exit 2
fi
[ "${1:-}" = --build ] && exit 0
export JMTMON_ALT="repeat=$PWD/target/debug/jmtmon,no_std=$PWD/target/no_std/debug/jmtmon,release=$PWD/target/release/jmtmon"
exec target/debug/jmtmon "$@"
