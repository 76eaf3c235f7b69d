#!/usr/bin/env python3
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"],
                       "level_note": c.get("note") or ("Exhaustive within: " + c.get("bounds", ""))})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks intercept libc/pthread calls at link time and compile maike's sources unchanged."}, open(H + "/MANIFEST.json", "w"), indent=1)
