#!/usr/bin/env python3
"""Creates seeded/<id>/ from a description and confirms it in a scratch clone of /repo (/tmp/seedrepo).
usage: mkseed.py FILE.py [ID...]     FILE.py calls seed(...)
 seed(id, property, file, [(old, new), ...], needs, breaks, demo, std="c++17", flags="", pre=None)
demo is the text of demo.cpp (exit 0: as it should be)."""
import sys, os, re, subprocess, json, shutil
R = "/tmp/seedrepo"; S = "/verif/seeded"; want = sys.argv[2:]
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): run(["git", "-C", R, "checkout", "-q", "--", "."])
orig = {}
def origLines(f):
    if f not in orig: orig[f] = set(l.strip() for l in subprocess.run(["git", "-C", "/repo", "show", "b0f3202:include/itlib/" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines())
    return orig[f]
DEMO = """#!/bin/bash
# exit 0: the library behaves as it should
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
g++ -std=%s -O1 -g %s -I include "$D/demo.cpp" -o "$W/demo" -pthread || exit 1
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$W/demo"
"""
def seed(id, prop, file, edits, needs, breaks, demo, std="c++17", flags=""):
    if want and id not in want: return
    run(["git", "-C", R, "fetch", "-q"]); run(["git", "-C", R, "reset", "-q", "--hard", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    d = os.path.join(S, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % (std, flags)); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    bad = lambda m: (print(f"{id}: BAD {m}"), clean(), shutil.rmtree(d))
    p = run(["bash", d + "/demo.sh"], cwd=R)
    if p.returncode: return bad("demo fails on the unchanged tree\n" + p.stdout[:2500])
    path = os.path.join(R, "include/itlib", file); s = open(path).read()
    for o, n in edits:
        m = list(re.finditer("\n(?:[ \t]*\n)*".join(re.escape(l) for l in o.split("\n") if l.strip()), s)) # blank lines do not matter
        if len(m) != 1: return bad(f"{len(m)} matches of {o!r}")
        s = s[:m[0].start()] + n + s[m[0].end():]
    open(path, "w").write(s)
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
    rem = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if rem and not all(l in origLines(file) for l in rem): print(f"{id}: note: changes lines which are not original: {[l for l in rem if l not in origLines(file)]}")
    open(d + "/patch.diff", "w").write(diff)
    p = run(["bash", d + "/demo.sh"], cwd=R)
    if p.returncode == 0: return bad("demo passes with the patch")
    why = p.stdout.strip().splitlines()[:1]
    p = run(["ninja", "-C", R + "/_build", "-j8", "-k", "0"])
    if p.returncode: return bad("does not build\n" + p.stdout[-2000:])
    n = run(["python3", "/tmp/sh/run.py", R + "/_build"]).stdout
    if n.count("PASS") != 112 or "FAIL" in n: return bad("tests: " + " ".join(l for l in n.splitlines() if "FAIL" in l)[:300])
    p = run([sys.executable, "/verif/run_check.py", prop], cwd="/verif", env=dict(os.environ, VF_REPO=R, VF_EVDIR="/tmp/seedev"))
    l = [l for l in p.stdout.splitlines() if l.startswith("  ") or l.startswith("note") or l.startswith("error")]
    print(f"{id}: {prop} {'CAUGHT' if p.returncode == 1 else 'MISSED rc=%d' % p.returncode} {l[0][:220] if l else ''} | {p.stdout.splitlines()[-1] if p.stdout else ''}", flush=True)
    clean()
exec(open(sys.argv[1]).read())
