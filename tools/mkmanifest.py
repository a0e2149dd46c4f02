#!/usr/bin/env python3
import json
T = "deterministic simulation with fault injection (seeded schedules and faults, real code, replayable runs)"
RT = ("Seeded exploration of simulated runs of the real runtime, macro output and generated C++ in one process per run: "
      "every allocation, checked memory access, thread switch and planned failure is decided by the simulator. "
      "Assurance is that of the runs explored (counts in the evidence); it assumes x86-64, gcc/libstdc++ and sequentially consistent memory.")
FS = ("Seeded exploration of simulated runs of the real cxx-build and cxxbridge code, every build script a simulated process over a "
      "simulated file system: every system call is a scheduling, fault or crash point decided by the simulator. "
      "Assurance is that of the runs explored (counts in the evidence); it assumes a POSIX file system with symbolic links as on Linux.")
checks = {
 **{c: RT for c in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10".split()},
 **{c: FS for c in "C11 C12 C13 C14 C15 C16 C17 C18 C19 C24 C25".split()},
}
na = {
 "C20": "A pure function of the bridge source: no schedule, clock, I/O or fault can change the symbol names, so simulation has nothing to decide; a disagreement would show as a link error.",
 "C21": "Layout is fixed at compile time and depends on no schedule, time, I/O or fault.",
 "C22": "Acceptance of a declaration is a pure compile-time function of the source; nothing for a simulator to schedule or fault.",
 "C23": "Discriminant inference is a pure compile-time function of the enum declaration; nothing for a simulator to schedule or fault.",
}
import os
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for p in props:
    if p not in checks and p not in na: na[p]="No check built yet."
m={"version":1,"setup_cmd":"true","checks":[{"property":k,"quick_cmd":f"./check {k} quick","thorough_cmd":f"./check {k} thorough","technique":T,"level":"exploration","level_note":v} for k,v in sorted(checks.items())],
 "not_applicable":[{"property":k,"reason":v} for k,v in sorted(na.items())]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
