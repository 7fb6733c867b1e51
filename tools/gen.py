#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here); sys.dont_write_bytecode = True
import props, checks
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in props.P: f.write(json.dumps(p) + "\n")
ch = []
for pid in sorted(checks.CHECKS):
    k = checks.CHECKS[pid]
    ch.append(dict(property=pid, quick_cmd="VERIF_TIER=quick python3 check.py %s" % pid, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % pid,
                   technique=k["technique"], level="exploration", level_note=k["note"]))
na = [dict(property=p["id"], reason="check not built yet") for p in props.P if p["id"] not in checks.CHECKS]
m = dict(version=1, setup_cmd="python3 -c 'import compileall' && clang++ --version >/dev/null && mkdir -p build evidence replays", checks=ch, not_applicable=na,
         hooks=dict(guard="RP3D_VERIF_PLAIN_ALLOCATORS", enable="check.py compiles variant \"raw\" with -DRP3D_VERIF_PLAIN_ALLOCATORS (C23)", source_commits=["0847329"]),
         notes="Generated by tools/gen.py. Every check compiles /repo/src from the working tree (content-hashed object cache in build/); only the raw variant (C23) uses the hook.")
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(props.P), "properties", len(ch), "checks")
