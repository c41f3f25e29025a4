"""Check context: obligations, violations, evidence and the command-line protocol."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []
        self.viol = {}
        self.incon = []
        self.notes = []
        self.findings_seen = []
        self.P = None
        self.fn_seen = set()
        self.engines = []

    # -- lookups
    def find(self, path=None, name=None, trait=None, self_ty=None, targ=None, crate="rgeometry", optional=False):
        """function keys by semantic identity (public path / impl), never by position"""
        out = []
        for k, f in self.P.fns.items():
            if not f.get("root") or not f.get("primary") or f["kind"] == "Closure":
                continue
            if name is not None and f["name"] != name:
                continue
            if path is not None and nogen(f["path"]) != path:
                continue
            if trait is not None and f.get("impl_trait") != trait:
                continue
            if self_ty is not None and not self_ty(f.get("impl_self")):
                continue
            if targ is not None and not targ(f.get("impl_trait_args")):
                continue
            out.append(k)
        return out

    def one(self, path=None, **kw):
        r = self.find(path, **kw)
        if len(r) == 1:
            return r[0]
        self.missing(f"{path or kw.get('name')} ({kw.get('trait')})", len(r))
        return None

    def missing(self, what, n=0):
        self.violation(f"anchor|{what}", {"file": "src", "function": what},
                       f"anchor: the construct this property is about was not found (or is ambiguous: {n}): {what}", {})

    def where(self, f):
        sp = f.get("span") or ["?", 0]
        return {"file": sp[0] if isinstance(sp[0], str) else str(sp), "line": sp[1] if len(sp) > 1 else None, "function": f["path"]}

    # -- results
    def obligation(self, name, **kw):
        self.obl.append(dict(name=name, **kw))

    def violation(self, key, where, msg, detail=None):
        if key not in self.viol:
            self.viol[key] = {"key": key, "where": where, "message": msg, "detail": detail or {}}

    def inconclusive(self, name, key, why):
        self.incon.append({"obligation": name, "function": key, "why": why})

    def note(self, s):
        if len(self.notes) < 200:
            self.notes.append(s)

    def engine(self, **kw):
        from engine import Engine
        e = Engine(self.P, **kw)
        self.engines.append(e)
        return e

    # -- finish
    def finish(self, level, explanation, assumptions):
        known = {}
        kf = os.path.join(HERE, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf))["findings"]:
                if e["property"] == self.pid and e["status"] == "known":
                    known[e["key"]] = e
        new = []
        for k, v in self.viol.items():
            if k in known:
                print(f"KNOWN-FINDING: property={self.pid} {known[k]['what']}")
                self.findings_seen.append(k)
            else:
                new.append(v)
        tot = len(self.obl)
        rowsn = sum(o.get("rows", 0) for o in self.obl)
        fns = set(o["function"] for o in self.obl if "function" in o)
        for e in self.engines:
            fns |= {k for k in e.visited if self.P.fns[k].get("primary")}
        cov = {
            "explanation": explanation,
            "obligations": max(tot, 1),
            "discharged": max(0, tot - len([o for o in self.obl if o.get("bad")])),
            "inconclusive": len(self.incon),
            "rows": rowsn,
            "functions_analysed": len(fns),
            "functions": sorted(fns)[:400],
            "sources": len(getattr(self.P, "sources", []) or []),
            "obligation_list": self.obl[:1500],
            "inconclusive_list": self.incon[:100],
            "known_findings": self.findings_seen,
            "notes": self.notes[:100],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 3), "assumptions": assumptions,
              "violations": [v["message"] for v in new][:50]}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w"), indent=1, default=str)
        rp = os.path.join(HERE, "evidence", f"{self.pid}.violations.json")
        if new:
            json.dump(new, open(rp, "w"), indent=1, default=str)
            for v in new[:10]:
                w = v["where"]
                print(f"  {w.get('file')}:{w.get('line')} {w.get('function')}: {v['message']}")
                for k, d in v["detail"].items():
                    print(f"      {k}: {d}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        print(f"OK property={self.pid} obligations={tot} rows={rowsn} functions={len(fns)} inconclusive={len(self.incon)} wall={ev['wall_s']}s")
        return 0


class SubCtx:
    """collects the results of one candidate reading of a property that several rules would satisfy"""

    def __init__(self, ctx):
        self.ctx, self.obl, self.v, self.inc = ctx, [], [], []

    def where(self, f):
        return self.ctx.where(f)

    def obligation(self, name, **kw):
        self.obl.append(dict(name=name, **kw))

    def violation(self, *a):
        self.v.append(a)

    def inconclusive(self, *a):
        self.inc.append(a)

    def note(self, s):
        pass

    def flush(self):
        for x in self.obl:
            self.ctx.obl.append(x)
        for a in self.v:
            self.ctx.violation(*a)
        for a in self.inc:
            self.ctx.inconclusive(*a)

    def bad(self):
        return sum(x.get("bad", 0) for x in self.obl) + len(self.v)


def best_of(ctx, runs):
    """the property holds when one of the candidate rules does; otherwise the closest rule's mismatches are reported"""
    best = None
    for f in runs:
        sub = SubCtx(ctx)
        f(sub)
        k = (sub.bad(), len(sub.inc))
        if best is None or k < best[0]:
            best = (k, sub)
        if k == (0, 0):
            break
    best[1].flush()


def nogen(p):
    """path without generic arguments (nested <...> removed)"""
    out, d = [], 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            d += 1
        elif ch == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")
