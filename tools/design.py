"""Regenerates DESIGN.md from tools/design_tpl.md, the property table, the checks' own explanations, the last evidence and seeded/RESULTS.json."""
import ast
import json
import os
import re
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = lambda s, ind="": "\n".join(textwrap.wrap(s, 116, initial_indent=ind, subsequent_indent="  " if ind else "", break_long_words=False, break_on_hyphens=False))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
tech = {c["property"]: c for c in man["checks"]}
na = {d["property"]: d["reason"] for d in man["not_applicable"]}


def consts(pid):
    d, env = {}, {}
    src = open(os.path.join(HERE, "checks", pid.lower() + ".py")).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in ("EXPLANATION", "ASSUMPTIONS"):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                d[n.targets[0].id] = ["as C01, without the determinant contract"]
    return d


def table():
    out = []
    for p in props:
        i = p["id"]
        if i in na:
            continue
        c = consts(i)
        ev = {}
        f = os.path.join(HERE, "evidence", i + ".json")
        if os.path.exists(f):
            ev = json.load(open(f))
        out.append(f"### {i} {p['title']}\n")
        out.append(W("* *Decided by:* " + tech[i]["technique"] + ". " + c.get("EXPLANATION", ""), "") .replace("\n", "\n  "))
        out.append(W("* *Scope:* " + tech[i]["level_note"]).replace("\n", "\n  "))
        out.append(W("* *Why tests cannot:* " + p["why_tests_cant"]).replace("\n", "\n  "))
        out.append(W("* *Assumes:* " + "; ".join(c.get("ASSUMPTIONS", [])) + ".").replace("\n", "\n  "))
        cov = ev.get("coverage", {})
        if ev:
            out.append(f"* *Last run:* {cov.get('obligations')} obligations, {cov.get('rows')} table rows, {cov.get('functions_analysed')} functions, {ev.get('wall_s'):.0f} s after the shared front end.")
        out.append("")
    return "\n".join(x for x in out if x is not None)


def catches():
    r = json.load(open(os.path.join(HERE, "seeded", "RESULTS.json")))
    out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for k in sorted(r):
        m = os.path.join(HERE, "seeded", k, "meta.json")
        if not os.path.exists(m):
            continue
        m = json.load(open(m))
        by = r[k].get("also", [])
        hit = [r[k]["property"]] if r[k]["exit"] == 1 else []
        hit += [x for x in by if x not in hit]
        out.append(f"| {k} | {m['property']} | {m['needs']} | {', '.join(hit) or '(missed)'} |")
    return "\n".join(out)


def nas():
    return "\n".join(W(f"* **{p['id']} {p['title']}**: {na[p['id']]}").replace("\n", "\n  ") for p in props if p["id"] in na) or "(none)"


t = open(os.path.join(HERE, "tools", "design_tpl.md")).read()
t = t.replace("@PROPERTIES@", re.sub("\n{3,}", "\n\n", table())).replace("@CATCHES@", catches()).replace("@NA@", nas())
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
print(len(t.splitlines()), "lines")
