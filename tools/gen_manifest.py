#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has one in vt/."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parents[1]
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
have = {}
for f in sorted((root / "vt").glob("c_*.py")):
    for m in re.finditer(r'^@check\("([A-Z]\d+)"', f.read_text(), re.M):
        have.setdefault(m.group(1), f.name)
TECH = json.loads((root / "tools" / "techniques.json").read_text())
FAULT = {"D03", "P07", "G05"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH.get(i, {})
        checks.append({
            "property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", "property-based testing (hypothesis) against an explicit oracle"),
            "level": "fault_enumeration" if i in FAULT else "exploration",
            "level_note": t.get("note", "Random structured exploration: finds counterexamples in the generated space, proves nothing beyond it. Trusts numpy/scipy/torch/scikit-learn, hypothesis and the oracle in vt/%s." % have[i]),
        })
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("reason", "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks run in-process against /repo's working tree through run.sh (python -m vt.run); no hooks are needed in /repo."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
