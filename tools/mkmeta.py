#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing: generated inputs against an independent oracle (Hypothesis), shrinking"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}, note))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())
NOT = []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash /opt/vp/build.sh >/dev/null", "checks": [
    {"property": p["id"], "quick_cmd": "python3-vt run.py %s" % p["id"], "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
     "technique": T, "level": "exploration", "level_note": note} for p, note in P if note], "not_applicable": [{"property": a, "reason": b} for a, b in NOT]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
sec = "\n".join("### %s %s\n*Property:* %s\n\n*How it is decided:* %s\n\n*Why tests cannot:* %s\n" % (p["id"], p["title"], p["statement"], note, p["why_tests_cant"]) for p, note in P if note)
res = json.load(open(os.path.join(ROOT, "tools", "seeds.json")))
rows = ["| bug | property | needs | result |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], res.get(s, "?")))
d = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read().replace("@@PROPS@@", sec).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
