#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.txt (one block per property)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
blocks = open(os.path.join(here, "tools", "props.txt")).read().split("\n\n")
out, checks, na = [], [], []
for b in blocks:
    b = b.strip()
    if not b or b.startswith("#"):
        continue
    d = {}
    for line in b.splitlines():
        k, _, v = line.partition(": ")
        d[k] = v
    mech = []
    for m in d["mech"].split(" ; "):
        n, _, w = m.partition(" @ ")
        mech.append({"name": n.strip(), "where": w.strip()})
    files = [f.strip() for f in d["files"].split(",")]
    files = [f if f.startswith("src/") else "src/MuyGPyS/" + f for f in files]
    for f in files:
        assert os.path.exists("/repo/" + f), f
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
    out.append({"id": d["id"], "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"].split(","), "text": d["for"]},
                "why_tests_cant": d["tests"], "anchors": {"files": files, "mechanism": mech}})
    if "na" in d:
        na.append({"property": d["id"], "reason": d["na"]})
    else:
        checks.append({"property": d["id"],
                       "quick_cmd": f"python3 -m analysis {d['id']} --tier quick",
                       "thorough_cmd": f"python3 -m analysis {d['id']} --tier thorough",
                       "technique": d["technique"], "level": "other", "level_note": d["note"]})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"import ast,sys; sys.exit(0)\"", "checks": checks, "not_applicable": na,
     "notes": "Pure static analysis in /verif/analysis (Python standard library only); nothing of /repo is imported or executed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(out), "properties", len(checks), "checks", len(na), "n/a")
