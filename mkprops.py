#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the tables below (development helper)."""
import json, os, glob
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level_note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level_note=level_note, na=na, observe=observe, state=state))


exec(open(os.path.join(HERE, "proptable.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        a = {"files": p["files"], "mechanism": [dict(name=n, where=w) for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        if p["state"]:
            a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["qtext"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        assert os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3-vt -W ignore run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3-vt -W ignore run.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa checks || true", "checks": checks, "not_applicable": na,
           "notes": "Pure static analysis over the Python syntax tree of /repo (standard library; numpy only as a container for tables of terms); nothing of /repo is imported or executed. No hooks."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
