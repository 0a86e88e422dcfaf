#!/bin/bash
# t.sh COUNT ids...: developer loop
n=$1; shift
for i in "$@"; do SIM_COUNT=$n timeout 300 /verif/.build/sim.bin check C$i quick 2>&1 | cut -c1-${W:-900}; done
