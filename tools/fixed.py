#!/usr/bin/env python3
"""fixed.py PROPERTY KEY COMMIT TEXT: record a repaired defect."""
import json, sys
p, k, c, t = sys.argv[1:]
open("/verif/known_findings.jsonl", "a").write(json.dumps({"property": p, "key": k, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, t)}) + "\n")
