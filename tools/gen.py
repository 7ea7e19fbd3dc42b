#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, C, N = [], [], []

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})
    if na:
        N.append({"property": id, "reason": na})
    else:
        C.append({"property": id, "quick_cmd": f"bash check.sh {id}", "thorough_cmd": f"bash check.sh {id}",
                  "technique": technique, "level": "other", "level_note": note})

exec(open(os.path.join(here, "tools", "table.py")).read())

P.sort(key=lambda p: p["id"]); C.sort(key=lambda c: c["property"]); N.sort(key=lambda c: c["property"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": C, "not_applicable": N,
               "notes": "Static analysis only: every check loads and type-checks /repo's current source, builds SSA, and decides the rule in analyzer/. No hooks in /repo are needed."}, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(C), "claimed", len(N), "not applicable")
