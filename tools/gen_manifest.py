#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import plan
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in plan.NOT_APPLICABLE or i not in plan.CLAIMED:
        continue
    t, n = plan.technique(i)
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="python3 tools/check.py " + i,
                       technique=t, level="other", level_note=n))
m = dict(version=1, setup_cmd="python3 tools/check.py setup", checks=checks,
         not_applicable=[dict(property=i, reason=plan.NOT_APPLICABLE.get(i) or "its check is still being built")
                         for i in ids if i in plan.NOT_APPLICABLE or i not in plan.CLAIMED],
         notes="every check analyses the compiler's intermediate representation of /repo's current source; see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
