#!/usr/bin/env python3
"""Decides one property: ./run_check.py C01 [--tier quick|thorough] [--unit NAME] [-v] [--strict]

1. compiles the property's harnesses against the current /repo headers to LLVM IR,
2. executes them symbolically with engine/vfse (every assertion and every memory/lifetime/race rule is a solver query),
3. replays each counterexample against the real code (native build, sanitizers); only reproduced ones are violations,
4. replays sampled passing paths natively and compares the observations (validation of the encoding),
5. writes evidence/<id>.json.
Exit 0: held on everything explored (or only known findings).  Exit 1: VIOLATION printed.  Exit 2: no answer (harness does not build, engine failed)."""
import sys, os, json, subprocess, hashlib, time, re, concurrent.futures as cf, shutil, threading
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, V)
import checks as CH

EV = os.environ.get("VF_EVDIR", os.path.join(V, "evidence"))
ENGINE = os.path.join(V, "build", "vfse")
HARN = os.path.join(V, "harness")
def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")

class Unit: pass

def cflags(u):
    return [f"-std={u['std']}"] + [f"-D{d}" for d in u["defs"]] + u["flags"] + ["-I", HARN, "-I", os.path.join(HARN, "mock"), "-I", os.path.join(REPO, "include"), "-Wno-everything"]
def key(u):
    return hashlib.sha1(json.dumps([u["threads"], u["src"], u["std"], u["defs"], u["flags"], u["opt"]]).encode()).hexdigest()[:12]

class Build:
    """compiles each (source, standard, defines) once; bc for the engine, several native flavours for replay"""
    def __init__(self, dir): self.dir = dir; self.lock = threading.Lock(); self.futs = {}
    def _once(self, name, fn):
        with self.lock:
            f = self.futs.get(name)
            mine = f is None
            if mine: f = self.futs[name] = cf.Future()
        if mine:
            try: f.set_result(fn())
            except Exception as e: f.set_exception(e)
        return f.result()
    def bc(self, u):
        def go():
            out = os.path.join(self.dir, key(u) + ".bc")
            o = ["-O0", "-Xclang", "-disable-O0-optnone"] if u["opt"] == "O0" else ["-O2"] if u["opt"] == "O2" else ["-O1", "-Xclang", "-disable-llvm-passes"]
            c = ["clang++"] + o + (["-fsanitize=thread"] if u["threads"] else []) + ["-fsanitize=signed-integer-overflow", "-fsanitize-trap=signed-integer-overflow", "-gline-tables-only", "-include", os.path.join(HARN, "vf_pre.h"), "-fno-vectorize", "-fno-slp-vectorize", "-DVF_ENGINE"] + cflags(u) + ["-emit-llvm", "-c", os.path.join(HARN, u["src"]), "-o", out]
            rc, o, e = sh(c, 300)
            if rc: raise RuntimeError("harness does not compile: " + " ".join(c) + "\n" + e[:4000])
            return out
        return self._once("bc" + key(u), go)
    FL = {"asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DVF_ASAN"],
          "plain": ["-O1", "-g"],
          "pattern": ["-O1", "-g", "-ftrivial-auto-var-init=pattern"],
          "zero": ["-O1", "-g", "-ftrivial-auto-var-init=zero"],
          "msan": ["-O1", "-g", "-fsanitize=memory", "-fsanitize-memory-track-origins=0", "-fno-omit-frame-pointer", "-DVF_MSAN"],
          "sched": ["-O1", "-g", "-fsanitize=thread", "-DVF_SCHED"]}
    def native(self, u, fl):
        def go():
            out = os.path.join(self.dir, key(u) + "." + fl)
            obj = out + ".o"; rt = out + ".rt.o"
            rtsrc = "vf_rt_sched.cpp" if fl == "sched" else "vf_rt.cpp"
            rc, o, e = sh(["clang++"] + self.FL[fl] + cflags(u) + ["-c", os.path.join(HARN, u["src"]), "-o", obj], 300)
            if rc: raise RuntimeError("native build failed: " + e[:3000])
            rtfl = [f for f in self.FL[fl] if f != "-fsanitize=thread"]
            rc, o, e = sh(["clang++"] + rtfl + ["-std=c++17", "-w", "-I", HARN, "-c", os.path.join(HARN, rtsrc), "-o", rt], 300)
            if rc: raise RuntimeError("native runtime build failed: " + e[:3000])
            lf = ["-O1"] + [f for f in self.FL[fl] if f.startswith("-fsanitize") and f != "-fsanitize=thread"]
            rc, o, e = sh(["clang++"] + lf + ["-rdynamic", obj, rt, "-o", out, "-lpthread", "-ldl"], 300)
            if rc: raise RuntimeError("native link failed: " + e[:3000])
            return out
        return self._once(fl + key(u), go)

def writeInputs(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs: f.write(f"{n} {v}\n")

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=66:max_allocation_size_mb=1:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=66", MSAN_OPTIONS="exitcode=66")
def runNative(exe, entry, inputsFile, extra=None, timeout=10):
    env = dict(ENV, VF_INPUTS=inputsFile, VF_ENTRY=entry); env.update(extra or {})
    rc, o, e = sh([exe], timeout, env)
    obs = [l.split()[1] for l in o.splitlines() if l.startswith("OBS ")]
    return dict(rc=rc, started="START" in o, ended="END" in o, obs=obs, err=e[:3000], race="VF-RACE" in e)

def verdictOf(r):
    """None: ran to the end; str: how it failed; '' : not conclusive"""
    if r["rc"] == 0: return None
    if r["rc"] in (76, 78, 79): return ""
    if r["rc"] == -999: return "does not terminate (native run exceeded its time limit)"
    m = re.search(r"VF-[A-Z]+: .*", r["err"])
    if m: return m.group(0)
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: MemorySanitizer[^\n]*|ERROR: [^\n]*)", r["err"])
    if m: return m.group(1)
    return f"native run ended with status {r['rc']}"

def replay(B, u, v, dir, tag):
    """reproduces a counterexample against the real code; returns (how, flavour, extra env) or None"""
    inp = os.path.join(dir, tag + ".inputs"); writeInputs(inp, v["inputs"])
    if u["threads"]: plan = [("sched", {})]
    else:
        plan = [("asan", {}), ("plain", {})]
        if v["uninit"] or v["kind"] != "leak":
            plan += [("msan", {})] + [("pattern", {"VF_FILL": f}) for f in ("170", "255", "1")] + [("zero", {"VF_FILL": "0"})]
    notes = []
    for fl, ex in plan:
        ex = dict(ex, **{f"VF_{k}": str(x) for k, x in u["params"].items()})
        try: exe = B.native(u, fl)
        except RuntimeError as e: notes.append(f"{fl}: {e}"); continue
        r = runNative(exe, u["entry"], inp, ex, 12 if v["kind"] == "nontermination" else 20)
        how = verdictOf(r)
        if how: return how, fl, ex, r
        notes.append(f"{fl}: rc={r['rc']} {r['err'][-300:]}")
    return None, notes

def main():
    a = sys.argv[1:]
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; verbose = "-v" in a; strict = "--strict" in a
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--unit" in a: only = a[a.index("--unit") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    if not os.path.exists(ENGINE):
        rc, o, e = sh(["make", "-C", os.path.join(V, "engine")], 600)
        if rc: print("engine does not build\n" + e[-2000:]); return 2
    units = [u for u in CH.units(pid, thorough) if only is None or only in u["name"]]
    dir = os.path.join(V, "build", f"{pid}.{os.getpid()}")
    os.makedirs(dir, exist_ok=True)
    rep = os.path.join(EV, "replay"); os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + "-"): os.remove(os.path.join(rep, f))
    B = Build(dir)
    ncpu = int(os.environ.get("VF_JOBS", os.cpu_count() or 8))
    pool = cf.ThreadPoolExecutor(ncpu)
    jobs = []
    def engine(u, sh_i, more=()):
        bc = B.bc(u)
        out = os.path.join(dir, f"{u['name']}.{sh_i}.json")
        env = dict(os.environ, **{f"VF_{k}": str(x) for k, x in u["params"].items()})
        if thorough: env["VF_THOROUGH"] = "1"
        c = [ENGINE, bc, "--entry", u["entry"], "--out", out, "--time", str(u["time"]), "--preempt", str(u["preempt"]), "--shard", f"{sh_i}/{u['shards']}", "--samples", str(max(2, 16 // u["shards"])), "--seed", str(seed)] + u["engine"] + list(more)
        rc, o, e = sh(c, u["time"] * 2 + 120, env)
        if rc not in (0, 1) or not os.path.exists(out): raise RuntimeError(f"engine failed on {u['name']} (status {rc}): {e[-2000:]}")
        return json.load(open(out))
    # longest units first
    for u in sorted(units, key=lambda u: -u["time"]):
        for i in range(u["shards"]): jobs.append((u, i, pool.submit(engine, u, i)))
        if u["validate"] and not u["threads"]: pool.submit(lambda u=u: B.native(u, "asan"))
    res = {u["name"]: [] for u in units}; errs = []
    for u, i, f in jobs:
        try: res[u["name"]].append(f.result())
        except Exception as e: errs.append(f"{u['name']}: {e}")
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k.get("status") == "known"]
    viols, notrep, knownHit = [], [], set()
    seen = set()
    def decide(u, skip=()):
        n = 0
        for r in res[u["name"]]:
            for v in r["violations"]:
                k = (v["kind"], v["msg"], v["loc"])
                if k in seen or k in skip or len(viols) >= 6: continue
                kk = None
                for kn in known:
                    if re.fullmatch(kn["unit"], u["name"]) and re.search(kn["msg"], v["msg"]) and re.search(kn.get("stack", ""), v["stack"]) and all([n2, str(v2)] in v["inputs"] for n2, v2 in kn.get("inputs", [])): kk = kn
                if kk: knownHit.add(kk["id"]); continue
                if len([x for x in viols if x[0] is u]) >= 2 or n >= 4: continue
                n += 1
                tag = f"{u['name']}.v{n}"
                rp = replay(B, u, v, dir, tag)
                if rp[0] is None: notrep.append((u, v, rp[1])); continue
                viols.append((u, v, rp)); seen.add(k)
    for u in units:
        decide(u)
        if not any(x[0] is u for x in viols) and any(x[0] is u for x in notrep) and any(r["incomplete_reason"] == "stopped after violation" for r in res[u["name"]]):
            # nothing of what ended the exploration early is real: explore the rest
            try:
                again = [pool.submit(engine, u, i, ["--grace", "1e9"]) for i in range(u["shards"])]
                res[u["name"]] = [f.result() for f in again]
            except Exception as e: errs.append(f"{u['name']}: {e}")
            decide(u, {(v["kind"], v["msg"], v["loc"]) for x, v, _ in notrep if x is u})
    # validation of the encoding: natively run sampled passing paths
    validated, disagree, samples = 0, [], []
    def validate(u, s, j):
        exe = B.native(u, "sched" if u["threads"] else "asan")
        inp = os.path.join(dir, f"{u['name']}.s{j}.inputs"); writeInputs(inp, s["inputs"])
        r = runNative(exe, u["entry"], inp, dict({f"VF_{k}": str(x) for k, x in u["params"].items()}, **({"VF_THOROUGH": "1"} if thorough else {})))
        ok = r["rc"] == 0 and r["ended"] and len(r["obs"]) == len(s["obs"]) and all(a == b or a == "?" for a, b in zip(s["obs"], r["obs"]))
        return u, s, r, ok
    vj = []
    for u in units:
        if not u["validate"]: continue
        j = 0
        for r in res[u["name"]]:
            for s in r["samples"]:
                if j >= (200 if thorough else 24): break
                vj.append(pool.submit(validate, u, s, j)); j += 1
    for f in vj:
        try: u, s, r, ok = f.result()
        except RuntimeError as e: disagree.append(dict(unit="?", error=str(e)[:1500])); continue
        if ok:
            validated += 1
            if len(samples) < 12: samples.append(dict(unit=u["name"], inputs=" ".join(f"{n}={v}" for n, v in s["inputs"])[:600], observed=s["obs"][:40]))
        else:
            d = dict(unit=u["name"], inputs=s["inputs"], predicted=s["obs"], native=r["obs"], rc=r["rc"], err=r["err"][-400:])
            disagree.append(d)
            m = re.search(r"VF-(CHECK|MEMORY|LEAK|TERMINATE): .*", r["err"])
            if m and not u["threads"]: viols.append((u, dict(kind="check", msg="native run of a solver generated path: " + m.group(0), loc="?", stack="", inputs=s["inputs"], uninit=False), (m.group(0), "asan", {}, r)))
    pool.shutdown()
    # evidence
    tot = lambda k: sum(r[k] for l in res.values() for r in l)
    sol = lambda k: sum(r["solver"][k] for l in res.values() for r in l)
    fn = {}
    for l in res.values():
        for r in l:
            for f in r["functions"]:
                g = fn.setdefault(re.sub(r"<.*>", "<>", f["name"].split("(")[0]) if False else f["name"], [0, 0, 0]); g[0] += f["calls"]; g[1] = max(g[1], f["covered"]); g[2] = f["blocks"]
    unitsOut, missing, incomplete = [], [], []
    for u in units:
        rs = res[u["name"]]; reach = {}
        for r in rs:
            for k, v in r["reach"].items(): reach[k] = reach.get(k, 0) + v
        miss = [l for l in u["reach"] if not reach.get(l)]
        inc = [r["incomplete_reason"][:400] for r in rs if not r["complete"]]
        if len(rs) < u["shards"]: inc.append("engine did not answer on some shards")
        if miss: missing.append((u["name"], miss))
        if inc: incomplete.append((u["name"], inc[0]))
        unitsOut.append(dict(unit=u["name"], harness=u["src"], entry=u["entry"], std=u["std"], defines=u["defs"], bounds=u["bounds"], complete=not inc, incomplete_reason=inc[:2], paths=sum(r["paths"] for r in rs), instructions=sum(r["instructions"] for r in rs),
                             assertions=sum(r["checks"] for r in rs), solver_queries=sum(r["solver"]["queries"] for r in rs), solver_s=round(sum(r["solver"]["secs"] for r in rs), 3), cpu_s=round(sum(r["wall_s"] for r in rs), 2), reached=reach))
    ev = dict(property=pid, tier=tier, seed=seed, level=CH.LEVEL, coverage=dict(
        states=tot("states"), transitions=tot("instructions"), traces_validated_against_impl=validated, samples=samples,
        paths=tot("paths"), assertions_checked=tot("checks"), symbolic_assertions=tot("check_queries"), context_switches=tot("context_switches"), visible_operations=tot("visible_ops"),
        solver=dict(queries=sol("queries"), sat=sol("sat"), unsat=sol("unsat"), unknown=sol("unknown"), decided_by_cached_model=sol("model_hits"), query_cache_hits=sol("cache_hits"), rewritings_confirmed=sol("rewrites_confirmed"), comparisons_decided_by_confirmed_rewriting=sol("rewrites_deciding"), rewritings_beyond_budget=sol("rewrites_unconfirmed"), rewriting_seconds=round(sol("rewrite_secs"), 3), seconds=round(sol("secs"), 3)),
        bounds_exhausted=not incomplete, units=unitsOut, validation_disagreements=disagree[:10], validation_disagreement_count=len(disagree),
        counterexamples_not_reproduced=[dict(unit=u["name"], kind=v["kind"], msg=v["msg"], loc=v["loc"], notes=[n[:300] for n in nt]) for u, v, nt in notrep],
        engine_errors=[e[:1500] for e in errs], witnesses_not_reached=[dict(unit=a, labels=b) for a, b in missing],
        functions_encoded=[dict(name=k[:300], calls=c[0], blocks_covered=c[1], blocks=c[2]) for k, c in sorted(fn.items())]),
        assumptions=CH.assumptions(pid), wall_s=round(time.time() - t0, 2), violations=len(viols))
    if only is None:
        json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for k in known:
        if k["id"] in knownHit: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for u, v, nt in notrep:
        print(f"note: counterexample not reproduced natively, not reported: {u['name']} {v['kind']}: {v['msg']} at {v['loc']}")
        if verbose: print(v["stack"], v["inputs"], *nt, sep="\n")
    if not errs:
      for n, l in missing: print(f"note: witness not reached in {n}: {l}")
      for n, l in incomplete: print(f"note: bound not exhausted in {n}: {l}")
    for d in disagree[:5]: print("note: native run disagrees with the encoding:", json.dumps(d)[:1500])
    seenErr = set()
    for e in errs:
        m = e.split(": ", 1)[-1]
        if m in seenErr: continue
        seenErr.add(m); ls = [l for l in e.splitlines() if "error" in l] or e.splitlines()
        print("error:", e.split(":")[0] + ":", "\n  ".join(l[:300] for l in ls[:8]))
    for i, (u, v, rp) in enumerate(viols):
        p = os.path.join(rep, f"{pid}-{i+1}.json")
        json.dump(dict(property=pid, unit=u["name"], harness=u["src"], entry=u["entry"], std=u["std"], defines=u["defs"], kind=v["kind"], message=v["msg"], location=v["loc"], stack=v["stack"].splitlines(), inputs=v["inputs"], reproduced=rp[0], flavour=rp[1], env=rp[2], native_stderr=rp[3]["err"],
                       how_to_replay=f"./replay.py {p}"), open(p, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {u['name']}: {v['kind']}: {v['msg']} at {v['loc']}; native: {rp[0]}")
        if verbose: print(v["stack"], " ".join(f"{n}={x}" for n, x in v["inputs"]), sep="\n")
    print(f"{pid} {tier}: units={len(units)} paths={tot('paths')} instructions={tot('instructions')} checks={tot('checks')} queries={sol('queries')}+{sol('rewrites_confirmed')} solver={sol('secs')+sol('rewrite_secs'):.1f}s cpu={sum(r['wall_s'] for l in res.values() for r in l):.1f}s validated={validated} violations={len(viols)} wall={time.time()-t0:.1f}s")
    if verbose:
        for u in unitsOut: print("  ", u["unit"], "paths", u["paths"], "instr", u["instructions"], "cpu", u["cpu_s"], "solver", u["solver_s"], "complete" if u["complete"] else "INCOMPLETE", u["reached"])
    if not os.environ.get("VF_KEEP"): shutil.rmtree(dir, ignore_errors=True)
    if viols: return 1
    if errs: return 2
    if strict and (missing or incomplete or disagree or notrep): return 3
    return 0
if __name__ == "__main__": sys.exit(main())
