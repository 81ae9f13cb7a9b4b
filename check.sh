#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# builds the simulator against /repo's working tree, then searches seeded simulated executions.
cd "$(dirname "$0")" || exit 2
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
mkdir -p evidence replays sim/target
log="sim/target/build-$$.log"
./build.sh >"$log" 2>&1 || { cat "$log" >&2; rm -f "$log"; echo "the tree under /repo does not build" >&2; exit 2; }
rm -f "$log"
exec sim/target/release/dsim check "$prop" --tier "$tier" --seed "$seed" \
  --evidence "evidence/$prop.json" --replays "$PWD/replays" --known "$PWD/known-findings.txt"
