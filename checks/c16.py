"""Validated types cannot be emptied of their guarantee from outside."""
import re
from geo import *
from ctx import nogen
from effects import Effects, short, strip, place_fields

LEVEL = "other"
EXPLANATION = ("Type and effect analysis of the validated wrapper types (convex polygons, triangles, ring ids, positions and cursors, polygons' index tables): their fields are "
               "not public, no public operation hands out mutable access to what they wrap, no public operation overwrites it, and no safe conversion builds one from raw "
               "points without passing an orientation test, except constructors whose name says they are unchecked.")
ASSUMPTIONS = ["constructors named *_unchecked put the obligation on the caller, as documented"]
WRAP = {"PolygonConvex": "convex polygon", "Triangle": "triangle", "TriangleView": "triangle view"}
SEALED = ("PointId", "RingId", "PositionId", "Position", "Cursor", "Polygon", "CursorIter", "HalfLineSoS", "LineSoS", "PolygonConvex", "Triangle", "TriangleView", "IndexIntersectionSet")
MUT_TRAITS = {"core::ops::deref::DerefMut", "core::ops::index::IndexMut", "core::borrow::BorrowMut", "core::convert::AsMut"}
RAW = ("Polygon", "Point", "Vec", "T")


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


def is_adt(t, p):
    return isinstance(t, tuple) and len(t) > 1 and t[0] == "adt" and t[1] == p


def run(ctx):
    P = ctx.P
    ef = Effects(P)
    paths = {}
    for p, a in P.adts.items():
        if a.get("local") and p.startswith(R) and p.startswith(R + "data"):
            paths[p.split("::")[-1]] = p
    n = 0
    for name in SEALED:
        p = paths.get(name)
        if p is None:
            ctx.missing(f"type {name}")
            continue
        for v in P.adts[p]["variants"]:
            for f in v["f"]:
                n += 1
                if f["vis"] == "pub":
                    ctx.violation(f"{name}.{f['n']}|public", {"file": "src", "function": p}, f"field {f['n']} of {name} is public: anyone can break what the type guarantees")
    ctx.obligation("fields of validated and index types are not public", rows=n)

    pub = [k for k, f in P.fns.items() if f.get("root") and f.get("primary") and f["kind"] in ("Fn", "AssocFn") and f["crate"] == "rgeometry" and (f.get("reach") or f.get("impl_trait"))]
    for name, what in WRAP.items():
        w = paths.get(name)
        if w is None:
            continue
        rows = makes = 0
        for k in sorted(pub):
            f = P.fns[k]
            ins, out = f.get("inputs") or [], f.get("output")
            nm = nice_path(f["path"])
            # mutable access handed out
            if any(i[0] == "ref" and i[2] and is_adt(i[1], w) for i in ins) or (f.get("impl_trait") in MUT_TRAITS and is_adt(f.get("impl_self"), w)):
                rows += 1
                if contains(out, lambda t: t[0] == "ref" and len(t) > 2 and t[2]):
                    ctx.violation(f"{nm}|hands out &mut", ctx.where(f), f"{nm} hands out mutable access to the inside of a validated {what}")
                elif name != "TriangleView":
                    # writes into the wrapped value
                    par = ef.reach(k)
                    b = P.body(k)
                    for bb in b["bbs"]:
                        if bb["c"]:
                            continue
                        for s in bb["s"]:
                            if s[0] != "=":
                                continue
                            pls = [s[1]] if s[1][1] else []
                            if s[2][0] in ("ref", "addr") and s[2][1]:
                                pls.append(s[2][2])
                            if any(a == w for pl in pls for a, _, _ in place_fields(P, b, pl)) and f["name"] not in ("clone_from",):
                                checked = any(P.fns[x]["name"].startswith(("validate", "orient")) for x in par)
                                if not checked:
                                    ctx.violation(f"{nm}|writes", ctx.where(f), f"{nm} changes the inside of a validated {what} without checking it again")
            # construction from raw material
            if out and contains(out, lambda t: is_adt(t, w)) and not any(contains(i, lambda t: any(is_adt(t, paths.get(x)) for x in WRAP)) for i in ins) and not f["name"].endswith("_unchecked"):
                par = ef.reach(k)
                mk = [x for x in par for s in ef.local(x)[0] if s.kind == "make" and s.what == w]
                if not mk:
                    continue
                makes += 1
                rows += 1
                checked = any(re.search(r"(^|_)(orient|orientation|validate|cmp_slope|sort_around|ccw_cmp)", P.fns[x]["name"]) for x in par) \
                    or any(s.callee and re.search(r"cmp_slope|cmp_vector_slope", s.callee.get("name") or "") for x in par for s in ef.local(x)[0])
                if not checked:
                    ctx.violation(f"{nm}|unvalidated", ctx.where(f), f"{nm} is a safe public operation that builds a {what} without any orientation or validity test (built in {nice_path(P.fns[mk[0]]['path'])})")
            # the wrapped points rewritten by a function the caller chooses
            elif out and contains(out, lambda t: is_adt(t, w)) and not f["name"].endswith("_unchecked") and f["name"] not in ("clone", "clone_from"):
                par = ef.reach(k)
                if any(s.kind == "make" and s.what == w for x in par for s in ef.local(x)[0]):
                    rows += 1
                    handed = any(i[0] == "param" for i in ins)
                    calls = any(s.callee and re.search(r"core::ops::function::Fn(Mut|Once)?::call", s.callee["p"]) for x in par if P.fns[x]["crate"] == "rgeometry"
                                for s in ef.local(x)[0] if s.kind in ("call", "value"))
                    checked = any(re.search(r"(^|_)(orient|orientation|validate|cmp_slope|sort_around|ccw_cmp)", P.fns[x]["name"]) for x in par)
                    if calls and handed and not checked:
                        ctx.violation(f"{nm}|arbitrary map", ctx.where(f), f"{nm} rebuilds a validated {what} from points computed by the caller's function, without checking it again")
        ctx.obligation(f"{what}: sealed against mutation and unchecked construction", rows=rows, constructors=makes)

    # ---- index tables of polygons and ids: no public &mut access
    rows = 0
    poly = paths["Polygon"]
    pid = paths["PointId"]
    for k in sorted(pub):
        f = P.fns[k]
        ins, out = f.get("inputs") or [], f.get("output")
        if any(i[0] == "ref" and i[2] and is_adt(i[1], poly) for i in ins):
            rows += 1
            if contains(out, lambda t: t[0] == "ref" and len(t) > 2 and t[2] and contains(t[1], lambda u: is_adt(u, pid) or is_adt(u, paths["PositionId"]))):
                ctx.violation(f"{nice_path(f['path'])}|index table", ctx.where(f), f"{nice_path(f['path'])} hands out mutable access to a polygon's index tables")
    ctx.obligation("no public operation hands out mutable access to index tables", rows=rows)

    # ---- ids and positions made from bare numbers
    rows = 0
    ids = {paths[x] for x in ("PointId", "RingId", "PositionId", "Position")}
    for k in sorted(pub):
        f = P.fns[k]
        ins, out = f.get("inputs") or [], f.get("output")
        if not out or not contains(out, lambda t: t[0] == "adt" and t[1] in ids) or contains(out, lambda t: is_adt(t, poly)):
            continue
        rows += 1
        if any(bare(i) for i in ins) and any(s.kind == "make" and s.what in ids for x in ef.reach(k) if P.fns[x]["crate"] == "rgeometry" for s in ef.local(x)[0]):
            ctx.violation(f"{nice_path(f['path'])}|id from number", ctx.where(f), f"{nice_path(f['path'])} is a public operation that makes a vertex id or position from a bare number")
    ctx.obligation("no public operation makes ids or positions from bare numbers", rows=rows)


def bare(t):
    """an unsigned number, or a range, reference or sequence of such"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "int":
        return t[1] in ("usize", "u32", "u64")
    if t[0] == "adt":
        return t[1].startswith(("core::ops::range", "alloc::vec", "core::option")) and any(bare(x) for x in t[2])
    return t[0] in ("ref", "slice", "array", "tuple") and any(bare(x) for x in t[1:] if isinstance(x, tuple)) or t[0] == "tuple" and any(bare(x) for x in (t[1] if len(t) > 1 and isinstance(t[1], tuple) else ()))


def nice_path(p):
    return short(nogen(p)) if not p.startswith("<") else short(p)
