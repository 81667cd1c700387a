#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None):
    P.append((dict(id=id, title=title, statement=" ".join(statement.split()),
                   quantifier=dict(over=over, text=" ".join(text.split())),
                   why_tests_cant=" ".join(why.split()),
                   anchors=dict(files=["FIAT/%s.py" % f for f in files],
                                mechanism=[dict(name=n, where=w) for n, w in mech])), tech, note))


exec(open(os.path.join(ROOT, "tools", "props.txt")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")

checks = []
for p, tech, note in P:
    if not os.path.exists(os.path.join(ROOT, "mc", "props", p["id"].lower() + ".py")):
        print("no check for", p["id"])
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run_check.py %s" % p["id"],
        "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "bounded exhaustive stateless exploration of the real code against a reference model" +
                     (": " + tech if tech else ""),
        "level": "model_checking",
        "level_note": note or "Exhaustive within the stated bounds on the real implementation; trusts the reference "
                              "model in mc/, numpy and the stated floating-point tolerances; nothing beyond the bounds."})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p, _, _ in P
                        if p["id"] not in {c["property"] for c in checks}],
     "notes": "No hooks in /repo: the checks import the FIAT package from /repo's working tree directly "
              "(pure Python, byte-code caching disabled). known_findings.txt lists findings and fixes."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
