"""Writes properties.jsonl and MANIFEST.json from meta/props.py, so the two stay in step."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA, NOTES

with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in PROPS + NA:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["for_all"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(q["title"]) <= 80, q["title"]
        fh.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/core.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 lib/core.py " + p["id"],
                 "thorough_cmd": "python3 lib/core.py %s --tier thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["level_note"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": NOTES}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
