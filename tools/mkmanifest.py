#!/usr/bin/env python3
"""Writes MANIFEST.json. Usage: tools/mkmanifest.py  (ids with a check are read from sim/checks_tab.cpp)"""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
tab = open(root + "/sim/checks_tab.cpp").read()
have = re.findall(r'\{"(C\d\d)", run_', tab)
note = ("Seeded search over simulated executions of the real library code: finds violations in the schedules, faults and inputs it samples, "
        "and does not prove their absence. Trusts the simulated file system, locks, allocator and MPI layer described in DESIGN.md.")
na = {
 "C30": "pure function of its arguments: no schedule, clock, I/O, fault or second party for a simulation to control; map semantics are only used (and so indirectly exercised) by the other checks",
 "C31": "pure function of its arguments: typed accessors convert and store a value, with no schedule, I/O or fault involved (their behaviour on failing allocations is covered by C21)",
 "C32": "pure function of its arguments: sorting and listing have no schedule, I/O or fault to simulate (failing allocations are covered by C21)",
 "C33": "pure function of its arguments: format parsing has no schedule, I/O or fault to simulate (failing allocations are covered by C21)",
}
checks = [{"property": p["id"], "quick_cmd": f"bash sim/run.sh check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash sim/run.sh check {p['id']}",
           "evidence_file": f"evidence/{p['id']}.json", "technique": "deterministic simulation with fault injection (seeded search)",
           "level": "exploration", "level_note": note} for p in props if p["id"] in have]
m = {"version": 1, "setup_cmd": "bash sim/build.sh",
     "hooks": {"guard": "KVTREE_SIM", "enable": "sim/buildlib.sh compiles /repo/src with -DKVTREE_SIM", "source_commits": ["4877f7f"]},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "check not built yet")} for p in props if p["id"] not in have],
     "notes": "See DESIGN.md. Replay a reported violation with: bash sim/run.sh replay FILE"}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
