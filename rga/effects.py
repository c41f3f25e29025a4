"""Call-graph effects: which operations are reachable from a function, with types expressed in that function's own parameters."""
import re

ARITH = {"Add", "Sub", "Mul", "Div", "Rem", "Neg", "AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign", "Shl", "Shr", "BitAnd", "BitOr", "BitXor",
         "Sum", "Product", "Pow", "CheckedAdd", "CheckedSub", "CheckedMul", "WrappingAdd", "WrappingSub", "WrappingMul", "SaturatingAdd", "SaturatingSub", "Signed", "Zero", "One"}


class Site:
    __slots__ = ("kind", "what", "ty", "callee", "key", "bb", "line", "args", "dest")

    def __init__(self, kind, what, ty, callee, key, bb, line, args=(), dest=None):
        self.kind, self.what, self.ty, self.callee, self.key, self.bb, self.line, self.args, self.dest = kind, what, ty, callee, key, bb, line, args, dest


def operands(s):
    """operands of a statement's right-hand side"""
    rv = s[2]
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k in ("cast", "un"):
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "agg":
        return list(rv[2])
    return []


class Effects:
    def __init__(self, prog):
        self.P = prog
        self.memo = {}

    def local(self, key):
        """(sites, callee keys) of one body, cleanup paths excluded"""
        if key in self.memo:
            return self.memo[key]
        b = self.P.body(key)
        sites, out = [], []

        def fnconst(o, key=key):
            if isinstance(o, tuple) and o and o[0] == "k" and "fn" in o[1]:
                c = o[1]["fn"]
                r = c.get("r")
                if r in self.P.fns:
                    out.append(r)
                else:
                    sites.append(Site("value", c["p"], c.get("self"), c, key, None, None))
        for i, bb in enumerate(b["bbs"]):
            if bb["c"]:
                continue
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                for o in operands(s):
                    fnconst(o)
                rv = s[2]
                line = s[3][1] if isinstance(s[3], (list, tuple)) and len(s[3]) > 1 else None
                if rv[0] == "agg":
                    if rv[1].get("k") == "closure" and rv[1]["key"] in self.P.fns:
                        out.append(rv[1]["key"])
                    elif rv[1].get("k") == "adt":
                        sites.append(Site("make", rv[1].get("p"), rv[1].get("t"), None, key, i, line, rv[2]))
                elif rv[0] == "bin":
                    sites.append(Site("bin", rv[1], rv[4], None, key, i, line, rv[2:4]))
                elif rv[0] == "un":
                    sites.append(Site("un", rv[1], rv[3], None, key, i, line, (rv[2],)))
                elif rv[0] == "cast":
                    sites.append(Site("cast", rv[1], rv[4], None, key, i, line, (rv[2],)))
            t = bb["t"]
            if t[0] == "call":
                for a in t[2]:
                    fnconst(a)
                f = t[1]
                if f[0] == "k" and "fn" in f[1]:
                    c = f[1]["fn"]
                    line = bb["sp"][1] if len(bb["sp"]) > 1 else None
                    sites.append(Site("call", c.get("rp") or c["p"], c.get("self"), c, key, i, line, t[2], t[3]))
                    if c.get("r") in self.P.fns:
                        out.append(c["r"])
                else:
                    sites.append(Site("indirect", "?", None, None, key, i, None, t[2], t[3]))
            elif t[0] == "drop":
                sites.append(Site("drop", t[1], t[3], None, key, i, None))
        self.memo[key] = (sites, out)
        return self.memo[key]

    def reach(self, root, stop=lambda k: False):
        """keys reachable from root -> parent key (root -> None)"""
        par = {root: None}
        todo = [root]
        while todo:
            k = todo.pop()
            if k != root and stop(k):
                continue
            for c in self.local(k)[1]:
                if c not in par:
                    par[c] = k
                    todo.append(c)
        return par

    def sites(self, root, stop=lambda k: False):
        par = self.reach(root, stop)
        for k in par:
            if k != root and stop(k):
                continue
            for s in self.local(k)[0]:
                yield s, par

    def path(self, par, key):
        out = []
        while key is not None:
            out.append(short(self.P.fns[key]["path"]))
            key = par[key]
        return " -> ".join(out[::-1])


def short(p):
    return re.sub(r"rgeometry::|::<[^<>]*>", "", p)


def strip(t):
    while t and t[0] in ("ref", "ptr"):
        t = t[1]
    return t


def arith(site):
    """the type on which this site does arithmetic, else None"""
    if site.kind == "bin" and re.match(r"(Add|Sub|Mul|Div|Rem|Shl|Shr|BitAnd|BitOr|BitXor)", str(site.what)):
        return site.ty
    if site.kind == "un" and site.what in ("Neg",):
        return site.ty
    if site.kind in ("call", "value") and site.callee:
        tr = site.callee.get("trait")
        if tr and tr.split("::")[-1] in ARITH and re.match(r"core::ops::|core::iter::traits::accum|num_traits::", tr):
            return strip(site.callee.get("self"))
    return None


def place_fields(P, body, pl):
    """(adt, variant, field) triples a place passes through"""
    t, var, out = body["locals"][pl[0]], None, []
    for e in pl[1]:
        if e[0] == "*":
            if t and t[0] in ("ref", "ptr"):
                t = t[1]
            elif t and t[0] == "adt" and t[2]:
                t = t[2][0]
        elif e[0] == ".":
            if t and t[0] == "adt":
                out.append((t[1], var or 0, e[1]))
            t, var = e[2], None
        elif e[0] == "v":
            var = e[1]
        else:
            t = t[1] if t and t[0] in ("array", "slice") else None
    return out
