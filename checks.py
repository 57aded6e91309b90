"""Which harness entries decide which property, and within which bounds."""
LEVEL = "model_checking"
U = {}      # property -> list of unit dicts
A = {}      # property -> list of assumptions
COMMON = ["inputs, counts and histories outside the stated bounds of each unit are not covered",
          "code is encoded as compiled by clang 18 for x86-64; the C++ runtime (allocation, exceptions, type info) is modelled by the engine",
          "allocations above 512 KiB fail"]
def unit(pid, name, src, entry, bounds, std="c++17", defs=(), flags=(), shards=1, time=40, preempt=3, reach=("end",), params=None, threads=False, validate=True, opt="O1", engine=(), tiers=("quick", "thorough"), thorough=None):
    d = dict(name=name, src=src, entry=entry, bounds=bounds, std=std, defs=list(defs), flags=list(flags), shards=shards, time=time, preempt=preempt, reach=list(reach), params=dict(params or {}), threads=threads, validate=validate, opt=opt, engine=list(engine), tiers=tiers, thorough=thorough or {})
    U.setdefault(pid, []).append(d)
def units(pid, thorough):
    r = []
    for u in U.get(pid, []):
        if ("thorough" if thorough else "quick") not in u["tiers"]: continue
        d = dict(u)
        if thorough:
            d["time"] = 700 // max(1, (sum(x["shards"] for x in U[pid]) + 7) // 8) if "time" not in u["thorough"] else u["thorough"]["time"]
            p = dict(u["params"]); p.update(u["thorough"].get("params", {})); d["params"] = p
            for k in ("shards", "preempt", "bounds"):
                if k in u["thorough"]: d[k] = u["thorough"][k]
        r.append(d)
    return r
def assumptions(pid): return COMMON + A.get(pid, [])
import importlib, os, glob, sys
sys.modules.setdefault("checks", sys.modules[__name__])
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))
