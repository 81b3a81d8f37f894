#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the per-property sections below,
the findings and the planted changes (development tool)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for x in open(HERE + "/properties.jsonl"):
    p = json.loads(x)
    props[p["id"]] = p
own = json.load(open(HERE + "/tools/design_props.json"))
out = [open(HERE + "/tools/design_head.md").read().rstrip(), ""]
out.append("## The properties, one by one\n")
for i, p in props.items():
    mod = ast.parse(open(f"{HERE}/checks/{i.lower()}.py").read())
    val = {n.targets[0].id: n.value for n in mod.body
           if isinstance(n, ast.Assign) and hasattr(n.targets[0], "id")}
    rule = ast.literal_eval(val["RULE"])
    ass = ast.literal_eval(val["ASSUMPTIONS"]) if "ASSUMPTIONS" in val else []
    d = own[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Oracle.* {d['oracle']}\n")
    out.append(f"*Workload.* {rule[0].upper() + rule[1:]}.\n")
    out.append(f"*Why tests cannot settle it.* {d['why']}\n")
    out.append("*Bounds and assumptions.* " + "; ".join(
        ass + ["the minimum numbers of observed events are in `REQUIRED` of "
               f"`checks/{i.lower()}.py`; fewer is an error, not a pass"])
        + f". Cost: about {d['cost']} s quick.\n")
out.append("## Genuine defects found on the original tree\n")
out.append("Repaired with one `fix:` commit each (recorded in "
           "`known_findings.json`; the checks report them again if they "
           "return):\n")
k = json.load(open(HERE + "/known_findings.json"))["findings"]
for f in k:
    if f["status"] == "fixed":
        out.append(f"* {f['id']} {f['property']} `{f['commit']}` {f['what']}")
out.append("\nNot repaired (a repair would change the scientific results of "
           "every user, which is the maintainer's decision):\n")
for f in k:
    if f["status"] == "known":
        out.append(f"* {f['id']} {f['property']} {f['what']}")
out.append("")
out.append("## Planted changes (seeded/) and the check that catches them\n")
out.append("Every one builds, passes the repository's tests, has a "
           "demonstration, and is caught by the quick check of its "
           "property.\n")
out.append("| change | caught by | needs |\n|---|---|---|")
for s in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{s}/meta.json"))
    extra = own.get("also", {}).get(s, "")
    out.append(f"| {s} | {m['property']}{extra} | {m['needs']} |")
out.append("")
out.append(open(HERE + "/tools/design_tail.md").read().rstrip())
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
