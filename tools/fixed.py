#!/usr/bin/env python3
"""fixed.py PROP COMMIT SIGNATURE WHAT: records a repaired defect in known_findings.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, c, sig, what = sys.argv[1:5]
c = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", c], stdout=subprocess.PIPE, check=True, text=True).stdout.strip()
with open(V + "/known_findings.jsonl", "a") as f:
    f.write(json.dumps(dict(property=p, status="fixed", commit=c, signature=sig, what=f"fixed: property={p} {c} {what}")) + "\n")
