#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
BUILT = open(os.path.join(ROOT, "tools", "built.txt")).read().split()
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, technique=None, level="other", note=None, na=None):
    if not na and id not in BUILT:
        na = "its check is not built yet"
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], technique=technique, level=level, note=note, na=na))
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"],
            thorough_cmd="./check.sh %s thorough" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="All checks are static: bin/pmmlcheck loads /repo's current source (go/packages + go/ssa) and never runs it. See DESIGN.md."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
