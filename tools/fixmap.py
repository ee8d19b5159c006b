"""Regenerates the 'fixed:' lines of known_findings.txt from /repo's fix commits (run by hand after a fix commit)."""
import subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = open(os.path.join(V, "tools", "fixmap.txt")).read().split("\n")
M = {}
for l in MAP:
    if l.strip():
        k, w = l.split(" ", 1)
        M[w.strip()] = k
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    s = s[len("fix: "):]
    if s not in M:
        print("unmapped:", s)
        continue
    out.append("fixed: property=%s %s %s" % (M[s], h, s))
p = os.path.join(V, "known_findings.txt")
old = [l.rstrip("\n") for l in open(p)] if os.path.exists(p) else []
keep = [l for l in old if not l.startswith("fixed:")]
open(p, "w").write("\n".join(keep + out) + "\n")
