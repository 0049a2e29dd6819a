#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (development helper)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.checks import REGISTRY, NOTES  # noqa: E402

NA = {
    "C40": "The junction generator decides where arms meet from trigonometry of user-supplied angles and from spiral and arc lengths evaluated numerically (Fresnel integrals); 'exactly' is a tolerance on floating-point results, and no static argument in reach bounds those values.",
    "C41": "Bounds the accumulated rounding and quadrature error of numpy/scipy evaluation; a statement about floating-point run-time values of library code outside the repository that source analysis over the reals cannot bound.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        checks.append(
            {
                "property": i,
                "quick_cmd": "python3 check.py %s" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "technique": "static analysis: " + REGISTRY[i][1],
                "level": "other",
                "level_note": NOTES.get(i, NOTES["*"]),
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 8))'", "checks": checks, "not_applicable": na, "notes": "All checks parse /repo's current source; nothing of it is executed. No hooks are needed in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
