#!/usr/bin/env python3
"""fixed.py PROP 'subject prefix' 'what failed' -> known_findings.json"""
import json, subprocess, sys
prop, pre, what = sys.argv[1:4]
out = subprocess.check_output(["git", "-C", "/repo", "log", "--oneline"]).decode()
h = [x.split()[0] for x in out.splitlines() if x.split(" ", 1)[1].startswith("fix: " + pre)]
assert len(h) == 1, h
p = "/verif/known_findings.json"
d = json.load(open(p))
n = 1 + sum(f["status"] == "fixed" for f in d["findings"])
d["findings"].append(dict(id=f"F{n:02d}", property=prop, status="fixed", commit=h[0], what=what,
                          line=f"fixed: property={prop} {h[0]} {what}"))
json.dump(d, open(p, "w"), indent=1)
