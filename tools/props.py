"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after edits)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, state=state))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def line(d):
    a = {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}
    if d.get("state"):
        a["state"] = [{"name": n, "meaning": w} for n, w in d["state"]]
    return {"id": d["id"], "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["qtext"]},
            "why_tests_cant": d["why"], "anchors": a}


allp = sorted(PROPS + NA, key=lambda d: d["id"])
assert len({d["id"] for d in allp}) == len(allp)
for d in allp:
    assert len(d["title"]) <= 80, d["id"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in allp:
        f.write(json.dumps(line(d)) + "\n")
man = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
       "checks": [{"property": d["id"], "quick_cmd": f"python3-vt check.py {d['id']}", "thorough_cmd": f"python3-vt check.py {d['id']} --thorough",
                   "technique": d["technique"], "level": "other", "level_note": d["note"]} for d in sorted(PROPS, key=lambda d: d["id"])],
       "not_applicable": [{"property": d["id"], "reason": d["reason"]} for d in sorted(NA, key=lambda d: d["id"])],
       "notes": "No hooks in /repo are needed: the driver reads rustc's MIR of the unmodified crate (feature set: default; C01/C02 also 'rug')."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")
