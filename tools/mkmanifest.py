"""Writes MANIFEST.json from the contract modules that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.levels import LEVELS, NOT_APPLICABLE

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in LEVELS:
        technique, level, note = LEVELS[p]
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s" % p,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                       "technique": technique, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "contracts not built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
