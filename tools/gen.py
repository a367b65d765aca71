#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
from specs import SPECS
PROPS = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), note="", technique=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["_note"] = note
    d["_technique"] = technique or "abstract interpretation of clang ASTs in a value-numbering domain"
    PROPS.append(d)


def na(pid, reason):
    NA.append({"property": pid, "reason": reason})


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in PROPS:
        f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}) + "\n")
checks = []
nas = {n["property"] for n in NA}
for d in PROPS:
    if d["id"] in nas:
        continue
    if d["id"] not in SPECS:
        NA.append({"property": d["id"], "reason": "not built yet"})
        continue
    c = "python3 checks/run.py " + d["id"]
    checks.append({"property": d["id"], "quick_cmd": c, "thorough_cmd": c + " --thorough", "technique": d["_technique"], "level": "other",
                   "level_note": d["_note"] or SPECS[d["id"]][2]["explanation"]})
man = {"version": 1, "setup_cmd": "bash frontend/build.sh", "checks": checks, "not_applicable": NA}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(NA), "not applicable")

# DESIGN.md: hand-written head and tail, the per-property part from the tables
import glob
seeds = {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j["what_it_breaks"]))
head, tail = (open(os.path.join(ROOT, "tools", n)).read() for n in ("design_head.md", "design_tail.md"))
o = ["## 2. Properties\n"]
for d in PROPS:
    pid = d["id"]
    o.append("### %s %s\n" % (pid, d["title"]))
    if pid in nas:
        o.append("Not applicable: " + next(n["reason"] for n in NA if n["property"] == pid) + "\n")
        continue
    e = SPECS[pid][2]["explanation"].replace("abstract interpretation of the instantiated syntax trees in a value-numbering domain (algebraic normal forms over unknown inputs, joins at merges, arbitrary-iteration abstraction of loops)", "Value numbering")
    o.append("* *Decided by* `checks/%s.py:%s`. %s." % (SPECS[pid][0], SPECS[pid][1], e))
    o.append("* *Quantified over.* " + d["quantifier"]["text"])
    if d["_note"]:
        o.append("* *Bounds and oracle.* " + d["_note"])
    o.append("* *Beyond the tests.* " + d["why_tests_cant"])
    if pid in seeds:
        o.append("* *Planted bugs caught.* " + "; ".join("`%s` (%s)" % s for s in seeds[pid]) + ".")
    o.append("")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(head + "\n".join(o) + "\n" + tail)
