#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed and not claimed properties
NA = {}         # id -> reason


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)),
              technique, note))
    if na:
        NA[id] = na


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for d, tech, note in P:
    if d["id"] in NA:
        continue
    assert os.path.exists(os.path.join(HERE, "rules", d["id"] + ".py")), d["id"]
    checks.append({"property": d["id"], "quick_cmd": f"python3 check.py {d['id']}", "thorough_cmd": f"python3 check.py {d['id']} --tier thorough",
                   "technique": tech, "level": "other", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast, sys; sys.exit(0)\"", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "Static analysis only: an abstract interpreter over the syntax tree of /repo/mandala (vlib/) and one rule module per property (rules/). No check executes repository code."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(NA), "not applicable")
