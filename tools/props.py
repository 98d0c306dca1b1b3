#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

AI = "abstract interpretation (constant/provenance domain) over go/ssa, "
NOTE = ("Decided from the type-checked SSA form of /repo's current source on every run; nothing of /repo is executed. "
        "Trusts go/types, x/tools/go/ssa, the analysis engine and its models of the standard library, and the rule table. ")

P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  technique=technique, note=note, na=na))

exec(open(os.path.join(HERE, "tools", "catalogue.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                      technique=p["technique"], level="other", level_note=NOTE + p["note"]) for p in P if not p["na"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
         notes="Known findings and repaired defects: known-findings.txt. Design: DESIGN.md. No hooks in /repo are needed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
assert all(len(p["title"]) <= 80 for p in P), [p["id"] for p in P if len(p["title"]) > 80]
assert len({p["id"] for p in P}) == len(P)
print(len(P), "properties,", len(m["checks"]), "claimed")
