"""Writes MANIFEST.json from propmap.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propmap import PROPS, TECH
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/vbuild.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks link /repo's unmodified sources against a simulated kernel with -Wl,--wrap", "source_commits": []},
    "checks": [{
        "property": i,
        "quick_cmd": "python3 tools/check.py --prop %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py --prop %s --tier thorough" % i,
        "technique": PROPS[i].get("tech", TECH),
        "level": "model_checking",
        "level_note": PROPS[i].get("note", "Exhaustive within the bounds listed per scenario in the evidence; the real code is executed on every path, under the address sanitizer. ") + " Assumes: " + "; ".join(PROPS[i]["assumes"]) + ".",
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
