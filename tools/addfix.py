#!/usr/bin/env python3
"""addfix.py PROP SUBSTRING-OF-COMMIT-SUBJECT TEXT: record a repaired defect."""
import json, subprocess, sys
prop, sub, text = sys.argv[1:4]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
h = [l.split()[0] for l in log if sub in l]
assert len(h) == 1, h
k = json.load(open("known_findings.json"))
line = "fixed: property=%s %s %s" % (prop, h[0], text)
k["fixed"] = [l for l in k["fixed"] if not l.startswith("fixed: property=%s %s " % (prop, h[0]))] + [line]
json.dump(k, open("known_findings.json", "w"), indent=1)
