#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + "/tools")
from spec import P, NA
from sa.rules import RULES

seen = set()
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert p["id"] not in seen, p["id"]
        seen.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": p["state"],
                "mechanism": [{"name": n, "where": w}
                              for n, w in p["mechanism"]],
                "observe_at": [], "hook_needed": None}}) + "\n")
checks, nas = [], []
reasons = dict(NA)
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] in RULES:
        assert p["technique"], p["id"]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": "other",
            "level_note": p["note"]})
    else:
        nas.append({"property": p["id"],
                    "reason": reasons.get(p["id"], "no check built yet")})
missing = set(RULES) - {p["id"] for p in P}
assert not missing, missing
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py",
               "checks": checks, "not_applicable": nas,
               "notes": "See DESIGN.md. All checks read /repo's source; "
                        "nothing is executed."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(nas), "not applicable")
