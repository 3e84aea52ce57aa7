"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS, NOTES, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique="TLA+ specification checked with TLC; conformance by replaying TLC behaviours "
                                     "into the package and judging recorded traces with TLC",
                           level="model_checking", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: the check for it is still being built")))
m = dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
