#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
exec(open(os.path.join(V, "tools", "design_props.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
wall = {}
if os.path.exists(os.path.join(V, "tools", "walls.json")): wall = json.load(open(os.path.join(V, "tools", "walls.json")))
o = [open(os.path.join(V, "tools", "design_head.md")).read(), "## 2. Properties\n"]
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); seeds.setdefault(m["property"], []).append((os.path.basename(d), m))
for p in props:
    i = p["id"]; us = checks.U[i]
    o.append(f"### {i}: {p['title']}\n\n{P[i]}\n")
    g = {}
    for u in us: g.setdefault(u["bounds"], []).append(u["name"])
    o.append("Bounds (quick): " + "; ".join(f"`{'`, `'.join(n)}`: {b}" for b, n in g.items()) + ".")
    th = {}
    for u in us:
        t = u["thorough"]; 
        if t: th.setdefault(json.dumps({k: v for k, v in dict(t.get("params", {}), **{k: v for k, v in t.items() if k != "params"}).items()}), []).append(u["name"])
    if th: o.append("Thorough: " + "; ".join(f"{', '.join(n)} with {k}" for k, n in th.items()) + ".")
    o.append("Assumptions: " + "; ".join(checks.A.get(i, ["none beyond the bounds"])) + ".")
    if i in wall: o.append(f"Cost: {wall[i]} s wall on 8 idle cores (quick).")
    o.append("")
o.append(open(os.path.join(V, "tools", "design_tail.md")).read())
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
t = ["\n### Repaired (each is one `fix:` commit in /repo)\n"]
seen = {}
for k in kf:
    if k["status"] == "fixed": seen.setdefault((k["commit"], k["what"]), []).append(k["property"])
for (c, w), ps in seen.items(): t.append(f"* {', '.join(ps)} — `{c}`: {w}")
t.append("\n### Recorded, not repaired\n")
for k in kf:
    if k["status"] == "known": t.append(f"* {k['property']}: {k['what']}. {k.get('why_not_fixed', '')}")
s = ["\n| bug | property | needs | breaks |\n|---|---|---|---|"]
for i in sorted(seeds):
    for n, m in seeds[i]: s.append(f"| {n} | {i} | {m['needs']} | {m['what_it_breaks']} |")
txt = "\n".join(o).replace("@FINDINGS@", "\n".join(t)).replace("@SEEDS@", "\n".join(s))
open(os.path.join(V, "DESIGN.md"), "w").write(txt)
print(len(txt), "bytes;", sum(map(len, seeds.values())), "seeds")
