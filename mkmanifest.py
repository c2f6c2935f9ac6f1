#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent
sys.path.insert(0, str(V))
from lib import plans
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                           thorough_cmd="python3 check.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, level="model_checking",
                           technique=plans.TECHNIQUE.get(p, "TLA+ specification model checked with TLC; every transition it generates is replayed into the real code and the recorded histories are validated against the specification with TLC"),
                           level_note=plans.NOTES.get(p, "exhaustive over the specification within the stated constants; the implementation is checked on all generated histories (transition cover plus seeded random walks), not proved")))
    else:
        na.append(dict(property=p, reason=plans.NOT_APPLICABLE.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 prepare.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed. See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
