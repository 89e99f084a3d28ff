#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the rules that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.base import RULES
import sa.rules
exec(open(os.path.join(HERE, "tools/levels.py")).read())
def note(i):
    d = " ".join((RULES[i].__doc__ or "").split())
    return (d[:1].upper() + d[1:] + ". " if d else "") + DEFAULT_NOTE


props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in RULES:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECHNIQUE.get(i, DEFAULT_TECHNIQUE), "level": "other",
                       "level_note": NOTES.get(i) or note(i)})
    else:
        na.append({"property": i, "reason": NA.get(i, "the rule for this property is not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
