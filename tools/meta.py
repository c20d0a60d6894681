#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation of the compiler's MIR (relational finite-table domain), compared with reference definitions"
BASE = "Trusts rustc's MIR, the MIR dumper, the abstract interpreter and the reference definitions."
REAL = "abstract interpretation of the compiler's MIR with real-valued terms (polynomial normal forms), compared with reference definitions; terms of another form by random interpretation"
REALNOTE = "Decided over the reals: rounding is not modelled, and which side a point within rounding of a case boundary falls on is not judged. A result whose normal form is not that of the reference is compared by evaluating the two extracted terms at points of its case, so there agreement is probable, not proved. "
P = []
NA = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, observe=observe or []))

def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, None, None, None)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        if p["statement"].count(". ") > 2: print("long", p["id"])
        assert p["statement"].count(". ") <= 2, p["id"]
        o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            o["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(o) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=NA)
for p in P:
    if p["technique"] is None:
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")
