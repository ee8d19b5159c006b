#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo's working tree, runs the exploration, writes the evidence.
   check.py --prop C06 [--tier quick|thorough] [--replay FILE]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (does not build, ...)."""
import argparse, json, os, subprocess, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from propmap import PROPS

VERIF = vbuild.VERIF


def known_ids(prop):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.split()
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("id="):
                r.append((w[2][3:], " ".join(w[3:])))
    return r


def run(bin_, prop, tier, out, rdir, known, budget, extra):
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    cmd = [bin_, "--prop", prop, "--tier", tier, "--out", out, "--replay-dir", rdir, "--known", ",".join(k for k, _ in known),
           "--jobs", str(min(8, os.cpu_count() or 8)), "--budget", str(budget)] + extra
    p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env, cwd=rdir)
    sys.stdout.write(p.stdout)
    sys.stdout.flush()
    return p.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    P = PROPS[a.prop]
    t0 = time.time()
    names = P["harness"]
    try:
        bins = vbuild.build(names)
    except RuntimeError as e:
        print("the harness does not build against the current tree:\n" + str(e))
        return 2
    rdir = os.path.join(os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays")))
    os.makedirs(rdir, exist_ok=True)
    if a.replay:
        rc = 2
        for n in names:
            rc = subprocess.run([bins[n], "--prop", a.prop, "--tier", a.tier, "--replay", a.replay]).returncode
            if rc != 2:
                break
        return rc
    known = known_ids(a.prop)
    extra = ["--only", a.only] if a.only else []
    total = 600 if a.tier == "quick" else 6 * 3600
    res, viol, rc = [], None, 0
    for n in names:
        out = os.path.join(rdir, a.prop + "." + n + ".json")
        left = max(30, total - (time.time() - t0)) / 1.0
        code = run(bins[n], a.prop, a.tier, out, rdir, known, left, extra)
        if code == 3:       # did not reproduce in a fresh process: only believed if the same exploration fails again
            code = run(bins[n], a.prop, a.tier, out, rdir, known, left, extra)
            if code == 3:
                code = 1
        if code not in (0, 1):
            print("%s ended with %d" % (n, code))
            return 2
        res.append((n, json.load(open(out))))
        os.unlink(out)
        if code == 1:
            viol = res[-1][1]
            break
    seen = set()
    for _, r in res:
        seen.update(r["known"])
    for k, w in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, w, k))
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for _, r in res), "transitions": sum(r["transitions"] for _, r in res),
            "traces_validated_against_impl": sum(r["executions"] for _, r in res),
            "distinct_outcomes": sum(r["outcomes"] for _, r in res), "max_decisions": max(r["max_depth"] for _, r in res),
            "exhaustive_within_bound": viol is None and not any(r["truncated"] for _, r in res),
            "rule": "every execution runs the code of the working tree from its initial state; all decision sequences of each scenario's alphabet up to its bound are enumerated depth first; states are distinct abstract states of implementation plus environment, transitions are decisions and environment steps",
            "scenarios": [dict(s, harness=n) for n, r in res for s in r["scenarios"]],
            "samples": [s for _, r in res for s in r["samples"]][:4],
        },
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
        "assumptions": P["assumes"],
        "known_findings_seen": sorted(seen),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + a.prop + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", a.prop + ".json"))
    if viol:
        print("%s: %s" % (a.prop, viol["violation"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, viol["replay"]))
        return 1
    return 0


sys.exit(main())
