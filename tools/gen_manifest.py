#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property which has units in specs/, not_applicable for the others."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
NA = {}  # property -> reason
TECH = "bounded symbolic execution of the compiled LLVM IR of the real headers, assertions decided by Z3"
TECHT = "bounded symbolic execution of the compiled LLVM IR with symbolic schedules (bounded preemptions, happens-before race detection), assertions decided by Z3"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
M = dict(version=1, setup_cmd="make -j8 -C engine", hooks=dict(guard="ITLIB_VERIF", enable="no hooks were needed: the checks compile the unmodified headers", source_commits=[]), checks=[], not_applicable=[])
for p in props:
    i = p["id"]; us = [u for u in checks.U.get(i, []) if "quick" in u["tiers"]]
    if not us: M["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check has been built yet"))); continue
    note = "Every assertion, memory access, object lifetime and leak rule is decided for all values of the symbolic inputs on every path within the stated bounds; counterexamples are replayed natively against the real code before they are reported. Outside the bounds nothing is claimed. Trusted: clang's IR, the engine's model of the C++ runtime (cross-checked by native re-runs of sampled paths), Z3. "
    note += "Bounds: " + "; ".join(sorted(set(u["bounds"] for u in us)))[:1500]
    M["checks"].append(dict(property=i, quick_cmd=f"./run_check.py {i}", thorough_cmd=f"./run_check.py {i} --tier thorough", technique=TECHT if any(u["threads"] for u in us) else TECH, level="model_checking", level_note=note))
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(M["checks"]), "checks;", "not applicable:", [x["property"] for x in M["not_applicable"]])
