#!/usr/bin/env python3
"""python3 tools/fixed.py PROP[,PROP] [COMMIT]: records a fix commit (default HEAD) in known_findings.jsonl"""
import json, os, sys
props, c = sys.argv[1].split(","), (sys.argv[2] if len(sys.argv) > 2 else "HEAD")
h, s = os.popen(f"git -C /repo log -1 --format='%h|%s' {c}").read().strip().split("|", 1)
with open("/verif/known_findings.jsonl", "a") as f:
    for p in props:
        f.write(json.dumps({"kind": "fixed", "line": f"fixed: property={p} {h} {s.removeprefix('fix: ')}"}) + "\n")
