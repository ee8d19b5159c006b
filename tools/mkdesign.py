#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, the last evidence and the planted bugs (run by hand)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
s = open("tools/design.in.md").read()
props = [json.loads(l) for l in open("properties.jsonl")]
rows = ["| property | title | scenarios | executions (quick) | transitions | states |", "|---|---|---|---|---|---|"]
for p in props:
    try:
        e = json.load(open("evidence/%s.json" % p["id"]))["coverage"]
        rows.append("| %s | %s | %d | %s | %s | %s |" % (p["id"], p.get("title", ""), len(e["scenarios"]), e["traces_validated_against_impl"], e["transitions"], e["states"]))
    except OSError:
        rows.append("| %s | %s | | | | |" % (p["id"], p.get("title", "")))
s = s.replace("@TABLE@", "\n".join(rows))
s = s.replace("@NFIX@", str(sum(l.startswith("fixed") for l in open("known_findings.txt"))))
rows = ["| planted bug | property | breaks | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists("tools/caught.txt"):
    for l in open("tools/caught.txt"):
        k, v = l.strip().split(" ", 1)
        caught[k] = v
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    k = d.split("/")[1]
    rows.append("| %s | %s | %s | %s |" % (k, m["property"], m["what_it_breaks"], caught.get(k, "?")))
s = s.replace("@SEEDED@", "\n".join(rows))
open("DESIGN.md", "w").write(s)
