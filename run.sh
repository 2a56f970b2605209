#!/bin/bash
# run.sh <property id> <quick|thorough>: build the harness against /repo's working tree, run one check
set -u
cd "$(dirname "$0")" || exit 2
export RPCHECK_DIR="$PWD" CARGO_TARGET_DIR="$PWD/harness/target" CARGO_NET_OFFLINE=true
log=$(mktemp) || exit 2
# never trust time stamps: the crate under test is always compiled anew
(cd harness && cargo clean --release --offline --locked -p rphtml) >/dev/null 2>&1
build() { (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; }
# with edge counters in the crate under test; if that does not work here, without (and then unguided)
if ! RUSTC_WRAPPER="$PWD/tools/rustc-cov" build && ! build; then
  tail -60 "$log"; rm -f "$log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
# a runaway allocation ends the worker, not the sandbox
tier="${2:-${VERIF_TIER:-quick}}"
if [ "$tier" = thorough ]; then ulimit -v 12000000; else ulimit -v 4000000; fi
exec harness/target/release/rpcheck check "$1" "$tier"
