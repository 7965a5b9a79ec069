"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import VERIF
from vf.plans import PLANS, TECHNIQUES, NOTES

props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": TECHNIQUES[p],
        "level": "model_checking",
        "level_note": NOTES[p],
    } for p in props if p in PLANS],
    "not_applicable": [{"property": p, "reason": "machinery not yet built"} for p in props if p not in PLANS],
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
