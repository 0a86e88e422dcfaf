#!/bin/bash
# Builds the simulator from /repo's current working tree into /verif/.build.
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
cd "$V/sim" || exit 2
# The instrumenter only needs the standard library.
(cd "$V/sim/instr" && GO111MODULE=off go build -o "$B/instr.bin" .) || exit 2
"$B/instr.bin" bbolt -repo /repo -out "$B/bbolt" || exit 2
"$B/instr.bin" overlay -repo /repo -out "$B/ov" || exit 2
go build -overlay "$B/ov/overlay.json" -o "$B/sim.bin" . || exit 2
