#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from checks import CHECKS
from props import PROPS, NOT_APPLICABLE, HOOKS, NOTES

here = os.path.dirname(os.path.abspath(__file__))
with open(here + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                       thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique=p.get("technique", "model checking: stateless exhaustive enumeration of bounded executions of the real code"),
                       level="model_checking", level_note=p["level_note"]))
na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()]
done = {c["property"] for c in checks} | set(NOT_APPLICABLE)
for p in PROPS:
    if p["id"] not in done:
        na.append(dict(property=p["id"], reason="its check is not built yet"))
m = dict(version=1, setup_cmd="python3 -c \"import json; json.load(open('MANIFEST.json'))\"",
         checks=checks, not_applicable=na, notes=NOTES)
if HOOKS:
    m["hooks"] = HOOKS
with open(here + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na])

# ---- DESIGN.md
import sys, glob
sys.path.insert(0, here + "/tools")
from design_parts import ORACLE, FALSE_ALARMS
sec = []
for p in PROPS:
    i = p["id"]
    sec.append(f"### {i} {p['title']}\n")
    if i in NOT_APPLICABLE:
        sec.append(f"Not applicable: {NOT_APPLICABLE[i]}\n"); continue
    h, o, t = ORACLE.get(i, ("?", "?", "?"))
    sec.append(f"*Specified*: {p['statement']}\n\n*Enumerated* (quick tier about {t}; harness/{h.split(' ')[0]}.C: {h}): {p['quantifier']['text']}.\n\n"
               f"*Oracle*: {o}.\n\n*Bounds and trust*: {p['level_note']}\n\n*Beyond the tests*: {p['why_tests_cant']}\n")
rows = ["| Seed | Property | Needs | Breaks | Caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught', d['property'] + ' (quick)')} |")
tmpl = open(here + "/tools/DESIGN.tmpl").read()
open(here + "/DESIGN.md", "w").write(tmpl.replace("PROPERTY_SECTIONS", "\n".join(sec)).replace("FALSE_ALARMS", FALSE_ALARMS.strip()).replace("SEED_TABLE", "\n".join(rows)))
