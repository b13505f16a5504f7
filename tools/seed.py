#!/usr/bin/env python3
"""seed.py ID...: confirm planted bugs (builds, tests pass, demo fails with it and passes without) and run the property's check on each"""
import json, os, subprocess, sys, shutil, time
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
def tests():
    sh("bash /opt/vp/test.sh /tmp/o.json")
    r = json.load(open("/tmp/o.json"))
    return r
nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    m = json.load(open(d + "/meta.json"))
    shutil.copy(V + "/tools/seedkit.sh", d + "/demo.sh")
    assert sh("git -C /repo status --short").stdout == "", "repo dirty"
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        t = tests()
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        ok = b.returncode == 0
        print(i, m["property"], "build", b.returncode, "tests", {k: (len(v) if hasattr(v, "__len__") else v) for k, v in t.items()}, "demo clean", r0.returncode, "patched", r1.returncode, (r0.stdout.strip()[-300:] if r0.returncode else ""), r1.stdout.strip()[-200:].replace("\n", " | "), flush=True)
        if not nocheck:
            t0 = time.time()
            c = sh("python3 run.py check %s quick" % m["property"], cwd=V)
            hit = c.returncode == 1 and ("VIOLATION property=%s " % m["property"]) in c.stdout
            print("   check:", "CAUGHT" if hit else "MISSED rc=%d" % c.returncode, "%.0fs" % (time.time() - t0), [l for l in c.stdout.split("\n") if "counterexample" in l or "NOTE" in l][:4], flush=True)
    finally:
        sh("git -C /repo checkout -- .")
