#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in tools/props_*.py (a development aid; the outputs are committed)."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
props, NA = [], []
for f in sorted(glob.glob(H + "/props_*.py")):
    m = importlib.import_module(os.path.basename(f)[:-3])
    props += getattr(m, "P", [])
    NA += getattr(m, "NA", [])
props.sort(key=lambda p: p[0]["id"])
ids = [p["id"] for p, _ in props]
assert len(set(ids)) == len(ids)
for p, _ in props:
    assert len(p["title"]) <= 80, p["id"]
    s = p["statement"].replace("e.g.", "eg")
    assert s.count(". ") <= 2, p["id"]
root = os.path.dirname(H)
with open(root + "/properties.jsonl", "w") as f:
    for p, _ in props:
        f.write(json.dumps(p) + "\n")
na = [p["id"] for p, c in props if c is None]
man = {"version": 1, "setup_cmd": "python3 vlib/extract.py",
       "checks": [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']}", **c) for p, c in props if c],
       "not_applicable": [dict(property=i, reason=r) for i, r in NA],
       "notes": "Static analysis only. No hooks are compiled into /repo; all checks read /repo's working tree through a rustc_private driver (MIR) or a syn extractor."}
assert sorted(na) == sorted(i for i, _ in NA), (na, NA)
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties,", len(man["checks"]), "checks,", len(NA), "not applicable")
