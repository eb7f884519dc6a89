#!/bin/bash
# check.sh ID: build the simulator with funspace as it is in /repo now, then
# decide one property. VERIF_SEED and VERIF_TIER are read by the simulator.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
log="$(mktemp)"
if ! "$here/build.sh" >"$log" 2>&1; then
    tail -n 40 "$log" >&2
    rm -f "$log"
    echo "check.sh: the build failed" >&2
    exit 2
fi
rm -f "$log"
export DSTSIM_ROOT="$here"
exec "$here/target/debug/dstsim" check "$1"
