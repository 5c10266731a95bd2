#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run after every change of the registry)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "observe_at": list(observe), "hook_needed": hook}})


exec(open(os.path.join(V, "tools/property_texts.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

NA = dict(registry.NOT_APPLICABLE)
checks = []
for p in P:
    c = registry.CHECKS.get(p["id"])
    if c is None:
        NA.setdefault(p["id"], "no check built yet")
        continue
    checks.append({
        "property": p["id"], "quick_cmd": "python3 mc/run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 mc/run.py " + p["id"],
        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 mc/run.py setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "Every check builds the code it needs from /repo's working tree into /verif/build (git-ignored) against stand-ins for oneTBB, KAssert and MPI; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks; not claimed:", sorted(NA))

# regenerate the tables of DESIGN.md
d = os.path.join(V, "DESIGN.md")
t = open(d).read()
import re
rows = ["| id | property | decided by |", "|---|---|---|"]
for p in P:
    c = registry.CHECKS.get(p["id"])
    rows.append("| %s | %s | %s |" % (p["id"], p["title"], (("`" + "`, `".join(u["name"] + "/" + u["variant"] for u in c["units"]) + "`: " + c["rule"].replace("|", "/")) if c else "not claimed: " + NA[p["id"]])))
t = re.sub(r"<!-- CHECKS -->.*?(?=\n## Why this)", lambda m: "<!-- CHECKS -->\n" + "\n".join(rows) + "\n", t, flags=re.S)
ns = {}
exec(open(os.path.join(V, "tools/seeds.py")).read(), ns)
res = {}
rp = os.path.join(V, "tools/seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for s in ns["SEEDS"]:
    rows.append("| %s | %s | %s | %s |" % (s["id"], s["property"], s["needs"], res.get(s["id"], "not run")))
t = re.sub(r"<!-- SEEDS -->.*", lambda m: "<!-- SEEDS -->\n" + "\n".join(rows) + "\n", t, flags=re.S)
open(d, "w").write(t)
