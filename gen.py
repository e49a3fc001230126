#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os
from props import P
from registry import PROPS
V = os.path.dirname(os.path.abspath(__file__))
ids = sorted(P)
assert set(PROPS) == set(P), (set(PROPS) ^ set(P))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in ids:
        p = P[i]
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": P[i]["technique"], "level": PROPS[i]["level"], "level_note": P[i]["note"]} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: the checks compile /repo's sources as they are (with stand-in headers for the three missing dependencies, see shim/) and control threads through the compiler's own instrumentation."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
