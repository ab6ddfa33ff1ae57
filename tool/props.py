#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))


NA = []


def na(id, title, statement, over, text, tests, files, mech, reason):
    prop(id, title, statement, over, text, tests, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "tool", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="bash tool/build.sh", checks=[], not_applicable=NA,
         notes="All checks are static: the clang-based extractor (tool/lhfx.cpp) turns /repo's current sources into a resolved program, the path-sensitive abstract interpreter (sa/engine.py) and the rules (sa/rules) decide; nothing of /repo is executed. No hooks are needed.")
for p in P:
    if p["technique"]:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py " + p["id"], technique=p["technique"], level="other", level_note=p["note"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
