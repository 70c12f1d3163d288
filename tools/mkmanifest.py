#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and the notes below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_config import CHECKS, NOTES  # noqa: E402

T = {"exploration": "property-based testing", "fault_enumeration": "property-based testing with fault injection"}
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "LIBNPY_VERIF_ZIP64_LIMIT",
        "enable": "-DLIBNPY_VERIF_ZIP64_LIMIT=verif_zip64_limit -include harness/zip64_limit.h when compiling /repo/src/npz.cpp (stage 'hooked' of C17 only; every other stage builds the library as it is)",
        "source_commits": ["53b087d"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "python3 check.py <id> builds /repo's working tree with the harness in a private directory under /tmp, runs the generated cases (VERIF_SEED, VERIF_TIER) and removes it; python3 check.py <id> --replay FILE re-runs one recorded failure. See DESIGN.md.",
}
for pid in sorted(CHECKS):
    tech, note = NOTES[pid]
    m["checks"].append({
        "property": pid,
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": T[CHECKS[pid]["level"]] + ": " + tech,
        "level": CHECKS[pid]["level"],
        "level_note": note,
    })
ids = [json.loads(line)["id"] for line in open(HERE + "/properties.jsonl") if line.strip()]
assert sorted(ids) == sorted(CHECKS), set(ids) ^ set(CHECKS)
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
