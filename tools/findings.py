"""Writes known_findings.json (run by hand)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def fixed(prop, key, commit, what):
    F.append({"property": prop, "key": key, "status": "fixed", "what": f"fixed: property={prop} {commit} {what}"})


def known(prop, key, what):
    F.append({"property": prop, "key": key, "status": "known", "what": what})


exec(open(os.path.join(HERE, "tools", "findings_data.py")).read())
json.dump({"findings": F}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
