#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props
try:
    import claims
except ImportError:
    claims = None
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.PROPS:
    c = (claims.CLAIMS if claims else {}).get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason=(claims.NA if claims else {}).get(p["id"], "check not built yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"]))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
    hooks=dict(guard="none", enable="no hooks: the harness uses the public API of the crate only", source_commits=[]))
if claims and getattr(claims, "NOTES", None): m["notes"] = claims.NOTES
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(props.PROPS), "properties,", len(checks), "checks")
