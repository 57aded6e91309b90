#!/usr/bin/env python3
"""Replays a counterexample natively against /repo's current headers:  ./replay.py evidence/replay/C01-1.json [flavour]
Builds the harness with the recorded flavour (asan, plain, pattern, zero, msan, sched) and runs it on the recorded inputs.
Exit 1 if the violation shows again, 0 if the run ends normally."""
import sys, os, json, shutil
import run_check as R, checks as CH
j = json.load(open(sys.argv[1]))
us = [u for t in (False, True) for u in CH.units(j["property"], t) if u["name"] == j["unit"]]
if not us: sys.exit("no such unit: " + j["unit"])
u = us[0]; d = os.path.join(R.V, "build", f"replay.{os.getpid()}"); os.makedirs(d)
try:
    fl = sys.argv[2] if len(sys.argv) > 2 else j["flavour"]
    exe = R.Build(d).native(u, fl); inp = os.path.join(d, "inputs"); R.writeInputs(inp, j["inputs"])
    r = R.runNative(exe, u["entry"], inp, dict({f"VF_{k}": str(x) for k, x in u["params"].items()}, **j["env"]), 20)
    how = R.verdictOf(r)
    print(f"{j['property']} {j['unit']}: {j['kind']}: {j['message']} at {j['location']}")
    print("inputs:", " ".join(f"{n}={v}" for n, v in j["inputs"]))
    print("native:", how or "ran to its end"); print(r["err"])
finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if how else 0)
