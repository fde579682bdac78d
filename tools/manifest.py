#!/usr/bin/env python3
"""Generate MANIFEST.json from the check modules present in checks/."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
REASONS = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
for p in props:
    f = "checks/%s.py" % p["id"].lower()
    if not os.path.exists(os.path.join(V, f)) or p["id"] in REASONS:
        na.append({"property": p["id"], "reason": REASONS.get(p["id"], "no check registered for it yet")})
        continue
    t = ast.parse(open(os.path.join(V, f)).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "NOTE"):
            g[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": p["id"], "quick_cmd": "python3 " + f,
                   "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                   "technique": g["TECHNIQUE"], "level": "exploration", "level_note": g["NOTE"]})
m = {"version": 1, "setup_cmd": "python3 -m vp.build base asan", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
