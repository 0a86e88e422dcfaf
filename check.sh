#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator from /repo's current tree and runs the check.
V=$(cd "$(dirname "$0")" && pwd)
"$V/build.sh" 1>&2 || { echo "build failed" >&2; exit 2; }
exec "$V/.build/sim.bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
