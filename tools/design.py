#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.tmpl.md, MANIFEST.json, seeded/ and known_findings.jsonl (a development aid; the output is committed)."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {d["id"]: d for d in map(json.loads, open(R + "/properties.jsonl"))}
man = json.load(open(R + "/MANIFEST.json"))
STRUCT = {}
for l in open(R + "/tools/structure.txt"):
    if "|" in l:
        k, a, b = [x.strip() for x in l.split("|", 2)]
        STRUCT[k] = (a, b)
rows = []
for c in man["checks"]:
    i = c["property"]
    d = props[i]
    try:
        e = json.load(open(f"{R}/evidence/{i}.json"))["coverage"]
        n = f"{e.get('discharged', '?')} / {len(e.get('undecided', []))}"
    except Exception:
        n = "?"
    orc, st = STRUCT.get(i, ("", ""))
    rows.append(f"| {i} | {d['title']}: {', '.join(d['anchors'].get('observe_at') or [m['name'] for m in d['anchors']['mechanism']])} | {orc} | {st} | {n} |")
seeds = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} |")
fx = []
for l in open(R + "/known_findings.jsonl"):
    if l.startswith("fixed: property="):
        p, c, w = l[len("fixed: property="):].strip().split(" ", 2)
        fx.append(f"| {p} | {c} | {w} |")
na = [f"* **{n['property']} {props[n['property']]['title']}**: {n['reason']}" for n in man["not_applicable"]]
t = open(R + "/tools/DESIGN.tmpl.md").read()
for k, v in (("TABLE", rows), ("SEEDS", seeds), ("FIXES", fx), ("NA", na)):
    t = t.replace(f"@@{k}@@", "\n".join(v))
c = R + "/tools/circuits.md"
t = t.replace("@@CIRCUITS@@\n\n", open(c).read() + "\n" if os.path.exists(c) else "")
assert "@@" not in t
open(R + "/DESIGN.md", "w").write(t)
