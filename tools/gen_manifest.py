#!/usr/bin/env python3
"""Writes tools/meta.json, MANIFEST.json and the per-property part of DESIGN.md from tools/descr.py."""
import json, os
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
exec(open(os.path.join(V, "tools", "descr.py")).read())
json.dump(META, open(os.path.join(V, "tools", "meta.json"), "w"), indent=1)
checks = []
for pid in sorted(META):
    m = META[pid]
    checks.append({"property": pid, "quick_cmd": "bin/check %s quick" % pid, "thorough_cmd": "bin/check %s thorough" % pid,
                   "technique": m["technique"], "level": m["level"], "level_note": m["level_note"]})
man = {"version": 1, "setup_cmd": SETUP, "checks": checks, "not_applicable": NA, "notes": NOTES}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    props[p["id"]] = p
out = []
for pid in sorted(META):
    m = META[pid]
    out.append("### %s %s\n\n*How it is decided.* %s (level: %s). %s\n\n*Bounds.* %s\n\n*Assumes.* %s.\n" % (
        pid, props[pid]["title"], m["technique"], m["level"], m["rule"], m["level_note"], "; ".join(m["assumptions"])))
head = open(os.path.join(V, "tools", "design_head.md")).read()
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for sid in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (sid, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(out) + tail + "\n".join(rows) + "\n")
