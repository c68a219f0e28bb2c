#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
import design_props
out = [open(os.path.join(here, "design_head.md")).read()]
P = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
M = {c["property"]: c for c in json.load(open(os.path.join(root, "MANIFEST.json")))["checks"]}
cost = {}
f = os.path.join(here, "cost.txt")
if os.path.exists(f):
    for l in open(f):
        w = l.rstrip("\n").split("\t")
        if len(w) == 4: cost[(w[0], w[1])] = (w[2], w[3])
out.append("## Properties\n\nOracle = what each execution is compared with; enumerated = the explored space (thorough: the same groups with larger bounds unless stated); "
           "cost = states (evaluations for C24) and seconds on 8 cores, without building.\n")
for p in P:
    o, b, w = design_props.D[p["id"]]
    c = "; ".join("%s %s states in %s s" % (t, *cost[(p["id"], t)]) for t in ("quick", "thorough") if (p["id"], t) in cost)
    out.append("### %s %s\n\n* level: %s\n* oracle: %s\n* enumerated: %s\n* beyond tests: %s\n%s" % (p["id"], p["title"], M[p["id"]]["level"], o, b, w, "* cost: %s\n" % c if c else ""))
out.append("## Planted bugs\n\nEach was written from the property text and the code, validated in a scratch copy (builds, 29 tests pass, the demonstration fails with it and passes without), "
           "and then run against the quick check of its property (`tools/catch.sh`).  \"missed at first\" = the check was strengthened because of it.\n\n| id | property | needs | quick check |\n|---|---|---|---|\n")
catch = {}
f = os.path.join(here, "catch.txt")
if os.path.exists(f):
    for l in open(f):
        w = l.rstrip("\n").split("\t")
        catch[w[0]] = w[1]
rows = []
sd = os.path.join(root, "seeded")
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append("| %s | %s | %s | %s |\n" % (i, m["property"], str(m["needs"]).replace("|", "/").replace("\n", " "), catch.get(i, "")))
out.append("".join(rows))
m = os.path.join(here, "design_tail.md")
if os.path.exists(m): out.append(open(m).read())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
