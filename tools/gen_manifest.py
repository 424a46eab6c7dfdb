#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that the harness implements."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
src = "".join(open(f"{V}/harness/src/props/{f}").read() for f in sorted(os.listdir(f"{V}/harness/src/props")))
have = set(re.findall(r'id: "(C\d+)"', src))
T = {}
for line in open(f"{V}/tools/techniques.txt"):
    if line.strip() and not line.startswith("#"):
        k, tech, note = [x.strip() for x in line.split("|")]
        T[k] = (tech, note)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bin/check {i} --tier quick", "thorough_cmd": f"bin/check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/check --build", "checks": checks, "not_applicable": na,
     "notes": "Own property-based testing engine with coverage-guided mutation and shrinking in harness/ (see DESIGN.md). No hooks in /repo are needed: "
              "the exported C ABI is driven directly; the library's existing feature mock_time supplies the test clock. "
              "Every check runs two builds of /repo's working tree: 'checked' (debug assertions, overflow checks, mock clock) and 'release' (as shipped, real clock)."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
