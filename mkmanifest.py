#!/usr/bin/env python3
# Writes MANIFEST.json from the list of built checks.
import json, sys
NOTE = {}
DONE = ["%02d" % i for i in range(1, 24)] + ["26"]
T = "deterministic simulation with fault injection: seeded search over schedules and faults, judged by a reference model"
N = ("Seeded search over generated plans (configuration, operations, schedule, faults); the real library code runs "
     "instrumented from /repo's current sources. Nothing is shown about plans not drawn. Trusted: the reference model in "
     "/verif/sim, the source instrumentation, the PBKDF2 stand-in, and the simulated disk's failure model.")
checks = [dict(property="C"+i, quick_cmd="./check.sh C%s quick" % i, thorough_cmd="./check.sh C%s thorough" % i,
               technique=T, level="exploration", level_note=N) for i in sorted(DONE)]
na = [dict(property="C24", reason="Pure functions of their input: no schedule, clock, fault, I/O or second party for a simulator to decide on."),
      dict(property="C25", reason="Pure bit-set algebra: no schedule, clock, fault, I/O or second party for a simulator to decide on.")]
json.dump(dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na), open("MANIFEST.json","w"), indent=1)
