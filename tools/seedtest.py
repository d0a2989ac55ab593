#!/usr/bin/env python3
"""Development aid, no check uses it: for each planted bug, confirm that it builds, passes the stable tests and that
its demonstration fails only with it; then run checks on it.
  seedtest.py [--checks own|all|none] [id ...]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd="/repo"):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace")


args = sys.argv[1:]
mode = "own"
if args[:1] == ["--checks"]:
    mode, args = args[1], args[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ids = args or sorted(os.listdir(V + "/seeded"))
allp = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
assert sh("git status --porcelain").stdout == ""
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    out = [i, prop]
    if mode != "only":
        out.append("demo clean rc=%d" % sh("bash %s/demo.sh" % d).returncode)
    r = sh("git apply %s/patch.diff" % d)
    try:
        if r.returncode:
            out.append("DOES NOT APPLY " + r.stdout)
        elif mode != "only":
            out.append("build rc=%d" % sh("bash /opt/vp/build.sh").returncode)
            sh("bash /opt/vp/test.sh /tmp/seedtest-out.json")
            missing = stable - set(json.load(open("/tmp/seedtest-out.json"))["passed"])
            out.append("tests " + ("pass" if not missing else "FAIL %s" % sorted(missing)[:3]))
            x = sh("bash %s/demo.sh" % d)
            out.append("demo bug rc=%d" % x.returncode)
        for p in ([prop] if mode in ("own", "only") else allp if mode == "all" else []):
            x = sh("python3 run.py %s quick" % p, cwd=V)
            hit = "VIOLATION property=%s" % p in x.stdout and x.returncode == 1
            if hit or p == prop or x.returncode not in (0, 1):
                out.append("%s:%s" % (p, "caught" if hit else "rc=%d MISSED" % x.returncode))
                if not hit:
                    out.append(x.stdout[-600:])
    finally:
        sh("git checkout -- . && git clean -fdq")
    print(" | ".join(out), flush=True)
