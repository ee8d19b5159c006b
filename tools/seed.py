#!/usr/bin/env python3
"""Applies a planted bug of seeded/ to /repo, builds, runs the tests, the demo and the property's check, and undoes it.
   seed.py ID [--nocheck] [--also C01,C02]"""
import subprocess, sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(i, check=True, also=()):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
    res = {}
    try:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout[-3000:]
        res["demo_clean"] = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo").returncode
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: return {"apply": a.stderr}
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return {"build": b.stdout[-3000:]}
        sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
        got = set(json.load(open("/tmp/seed_out.json"))["passed"])
        res["tests_lost"] = sorted(base - got)[:3] if base else len(got)
        x = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        res["demo_bug"] = x.returncode
        res["demo_out"] = (x.stdout + x.stderr)[-300:]
        if check:
            for p in [prop] + list(also):
                c = sh("python3 %s/tools/check.py --prop %s" % (V, p))
                res[p] = (c.returncode, [l for l in c.stdout.splitlines() if l.startswith(p)][-1:], )
    finally:
        sh("git -C /repo checkout -- .")
    return res
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
also = []
for a in sys.argv[1:]:
    if a.startswith("--also="): also = a[7:].split(",")
for i in ids or sorted(os.listdir(V + "/seeded")):
    print(i, json.dumps(one(i, "--nocheck" not in sys.argv, also)), flush=True)
sh("bash /opt/vp/build.sh")
