#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from check.py's table."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
import check
TECH = "deterministic simulation with fault injection: seeded search over operation schedules and faults, checked against a reference model"
NOTE = ("Seeded sampling of schedules and faults over the real code on x86-64 and i686 Linux (debug and release, the feature sets listed in the evidence); "
        "assurance is statistical, bounded by run length and count. Trusts the reference model, the simulator's mmap seam and the host CPU and kernel.")
NA = {
    "C20": "Windows-only code (thread environment block, SEH stack fields): there is no Windows target, linker or emulator in the sandbox, so no execution of it can be simulated here.",
    "C21": "A property of the type system, decided when a program is compiled: there is no schedule, fault or execution for a simulator to control.",
}
EXTRA = getattr(check, "NOTES", {})
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in check.SPECS:
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "w"), indent=1)
