#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from vf.checks import CHECKS

props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
missing = [p for p in props if p not in CHECKS]
if missing:
    print("no check:", missing)
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [{"property": p,
                 "quick_cmd": "python3 bin/check.py " + p,
                 "thorough_cmd": "python3 bin/check.py " + p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": CHECKS[p]["technique"],
                 "level": CHECKS[p]["level"],
                 "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [],
     "notes": "TLA+ specification in spec/, checked with TLC. Every check builds the library from /repo's working tree, "
              "records its behaviour with the harness in harness/ and validates the events with the specification. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
