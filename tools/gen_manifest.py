#!/usr/bin/env python3
"""Write MANIFEST.json from the check registry and the property list."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
sys.dont_write_bytecode = True
import registry  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks, na = [], []
for i in ids:
    if i in registry.CHECKS:
        m = registry.META[i]
        checks.append({
            "property": i,
            "quick_cmd": f"/usr/bin/python3 check.py {i} --tier quick",
            "thorough_cmd": f"/usr/bin/python3 check.py {i} --tier thorough",
            "technique": m["technique"], "level": "other", "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no static rule built for it yet")})
assert not set(registry.CHECKS) - set(ids), set(registry.CHECKS) - set(ids)
json.dump({"version": 1, "setup_cmd": "/usr/bin/python3 tools/selfcheck.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
