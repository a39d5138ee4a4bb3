#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py (claimed) and properties.jsonl (the rest)."""
import json
from checks_table import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harness uses the library's public interface only. Every check runs the real code of /repo's working tree, built as a path dependency in several feature configurations."},
          open("MANIFEST.json", "w"), indent=1)
