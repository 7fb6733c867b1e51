#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
pid, com, what = sys.argv[1:4]
d["findings"].append(dict(property=pid, status="fixed", commit=com, what=what, line="fixed: property=%s %s %s" % (pid, com, what)))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
