#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CHECKS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note="", na=None, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=a))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd="python3 check.py " + id,
                           thorough_cmd="python3 check.py %s --thorough" % id, technique=technique,
                           level="other", level_note=note))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 check.py --selftest", checks=CHECKS, not_applicable=NA), f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CHECKS), "claimed,", len(NA), "not applicable")
