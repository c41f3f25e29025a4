"""Combinatorial algorithms: results are the input's own points, decisions are taken by predicates only."""
from geo import *
from ctx import nogen
from effects import Effects, arith, place_fields, short, strip

LEVEL = "other"
EXPLANATION = ("Call-graph effect analysis of every public hull, polygonization, triangulation and edge-intersection routine: no reachable construct computes, "
               "converts or overwrites a coordinate, and no reachable construct builds a point other than by cloning one.")
ASSUMPTIONS = ["sorting, cloning and container functions of the standard library move values without changing them"]
MODS = ("algorithms::convex_hull", "algorithms::polygonization", "algorithms::triangulation", "algorithms::intersection")
GEO_T = ("Point", "Vector", "VectorView", "Transform", "Matrix")
CONV = {"num_traits::cast::ToPrimitive", "num_traits::cast::NumCast", "num_traits::cast::AsPrimitive", "num_traits::cast::FromPrimitive"}


def coordinate(t):
    """the type holds coordinates: the scalar parameter itself or a point/vector over it"""
    t = strip(t)
    if not t:
        return False
    if t[0] == "param":
        return t[1] == "T"
    if t[0] == "float":
        return True
    return t[0] == "adt" and t[1].startswith(R) and t[1].split("::")[-1] in GEO_T


def run(ctx):
    P = ctx.P
    ef = Effects(P)
    roots = [k for k, f in P.fns.items() if f.get("root") and f.get("primary") and f.get("reach") and f["kind"] == "Fn"
             and any(nogen(f["path"]).startswith(R + m) for m in MODS)]
    if len(roots) < 8:
        ctx.missing(f"public combinatorial algorithms (found {len(roots)}, expected at least 8)", len(roots))
    for k in sorted(roots):
        f = P.fns[k]
        name = short(nogen(f["path"]))
        gives_points = "Polygon" in repr(f.get("output")) or "Polygon" in repr([i for i in f.get("inputs", []) if i[0] == "ref" and i[2]])

        # a scalar's own predicates and order are the interface of the algorithms; their insides belong to other properties
        def stop(x):
            g = P.fns[x]
            return g.get("impl_trait") in (R + "PolygonScalar", R + "TotalOrd", R + "algorithms::zhash::ZHashable") and strip(g.get("impl_self") or ("?",))[0] != "adt" \
                or g["crate"] not in ("rgeometry",) and not g["path"].startswith("rgeometry")
        par = ef.reach(k, stop)
        n = 0
        for x in par:
            g = P.fns[x]
            if x != k and stop(x):
                continue
            loc = ef.local(x)[0]
            b = P.body(x)
            for s in loc:
                n += 1
                at_ = arith(s)
                bad = None
                if at_ is not None and coordinate(at_):
                    bad = f"arithmetic on coordinates ({s.what.split('::')[-1]} on {nice_ty(at_)})"
                elif s.kind == "call" and s.callee:
                    tr = s.callee.get("trait")
                    if tr in CONV and coordinate(s.callee.get("self")):
                        bad = f"conversion of a coordinate ({s.what.split('::')[-1]})"
                    elif tr in ("core::convert::Into", "core::convert::From") and strip(s.callee.get("self") or ("?",))[0] == "param" and strip(s.callee["self"])[1] == "T":
                        bad = "conversion of a coordinate"
                elif s.kind == "make" and s.what == POINT and gives_points and g["name"] not in ("clone", "clone_from"):
                    ctx.inconclusive(name, x, f"a point assembled from coordinates in {short(nogen(g['path']))}")
                if bad:
                    ctx.violation(f"{name}|{short(nogen(g['path']))}|{bad}", ctx.where(g), f"{name}: {bad} in {short(nogen(g['path']))} (reached via {ef.path(par, x)})")
            if gives_points:
                for bb in b["bbs"]:
                    if bb["c"]:
                        continue
                    for s in bb["s"]:
                        if s[0] != "=":
                            continue
                        n += 1
                        pls = [s[1]] if s[1][1] else []
                        if s[2][0] in ("ref", "addr") and s[2][1]:
                            pls.append(s[2][2])
                        for pl in pls:
                            if any(a == POINT for a, _, _ in place_fields(P, b, pl)):
                                ctx.violation(f"{name}|{short(nogen(g['path']))}|write", ctx.where(g),
                                              f"{name}: a coordinate of a point is overwritten (or borrowed mutably) in {short(nogen(g['path']))} (reached via {ef.path(par, x)})")
        ctx.obligation(f"{name}: no coordinate is computed, converted or overwritten", rows=n, function=k, reached=len(par))


def nice_ty(t):
    t = strip(t)
    return t[1].split("::")[-1] if len(t) > 1 and isinstance(t[1], str) else str(t[0])
