"""writes MANIFEST.json (kept in git; run after changing the claims)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
from levels import LEVELS
checks = []
for p in props:
    i = p["id"]
    level, tech, note = LEVELS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the verifier instruments the sources of /repo/src at import, in its own process."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
