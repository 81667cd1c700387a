#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_props.py, props.txt, the BOUNDS of
the check modules, design_tail.md and seeded/*/meta.json."""
import ast
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(R + "/tools/design_props.py").read())
props = {p["id"]: p for p in map(json.loads, open(R + "/properties.jsonl"))}


def consts(i):
    out = {}
    for n in ast.parse(open(R + "/mc/props/%s.py" % i.lower()).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


t = open(R + "/tools/design_head.md").read() + "\n"
for i, p in props.items():
    m, o, w, c = D[i]
    k = consts(i)
    t += "### %s %s\n\n" % (i, p["title"])
    t += "* enumerated: %s.\n* oracle: %s.\n" % (m, o)
    t += "* quick bounds: %s.\n" % k["BOUNDS"]["quick"]
    if "thorough" in k["BOUNDS"]:
        t += "* thorough bounds: %s.\n" % k["BOUNDS"]["thorough"]
    for a in k.get("ASSUMPTIONS", []):
        t += "* assumption: %s.\n" % a
    if w != "-":
        t += "* beyond the tests: %s.\n" % w
    else:
        t += "* beyond the tests: %s.\n" % p["why_tests_cant"]
    t += "* cost: %s.\n\n" % c
t += open(R + "/tools/design_tail.md").read()
t += "\n| planted change | property | needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open(R + "/tools/caught.json"))
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    t += "| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " "), caught.get(n, "?"))
open(R + "/DESIGN.md", "w").write(t)
