from geo import *
from poly import inverse
from spec import Table, Catalogue, strip
from engine import State

LEVEL = "other"
EXPLANATION = ("Decision tables of every line and half-line crossing operation (both ways of giving the direction, every segment-like argument) are "
               "extracted from MIR path partitions and compared with the simulation-of-simplicity crossing rule; the line/line point is compared as a "
               "rational normal form.")
ASSUMPTIONS = ["scalar predicates mean what C01 decides", "Point's order is the lexicographic total order (C19)",
               "scalar division is the field division (integer scalars truncate the final quotient)",
               "candidate mismatches are reported when inhabited by the configuration catalogue"]
LN = R + "data::line::"
LINE, DIRN = LN + "Line", LN + "Direction"
DE = R + "data::directed_edge::DirectedEdge"
NAMES = [x + c for x in "odbe" for c in "xy"]


def line(e, s, through, o="o", d="d"):
    names = [f["n"] for f in e.prog.adts[LINE]["variants"][0]["f"]]
    vs = [v["n"] for v in e.prog.adts[DIRN]["variants"]]
    dty = ("adt", DIRN, (T, ("const", 2)))
    dv = Adt(DIRN, vs.index("Through" if through else "Vector"), [ref(e, s, point(d) if through else vector(d))], dty)
    m = {"origin": ref(e, s, point(o)), "direction": dv}
    return Adt(LINE, 0, [m[n] for n in names], ("adt", LINE, (T, ("const", 2))))


def run(ctx):
    P = ctx.P
    cat = seg_catalogue("odbe")
    isects = {}
    for nm in ("LineSoS", "HalfLineSoS"):
        ks = [k for k in ctx.find(name="intersect", trait=R + "intersection::Intersects", self_ty=lambda t: t and strip(t)[0] == "adt" and strip(t)[1] == LN + nm)]
        by = {}
        for k in ks:
            by[strip(P.fns[k]["impl_trait_args"][1])[1]] = k
        isects[nm] = by
        for want in (LSV, DE):
            if want not in by:
                ctx.missing(f"Intersects<{want.split('::')[-1]}> for {nm}", len(ks))
    o_, d_, b, c = xy("o"), xy("d"), xy("b"), xy("e")

    for nm, by in isects.items():
        for argty, k in by.items():
            for through in (True, False):
                e, st = ctx.engine(), State()
                contracts.point_order(e)
                # a direction is given either as a vector or as a second point
                self_ = ref(e, st, Adt(LN + nm, 0, [line(e, st, through)], ("adt", LN + nm, (T, ("const", 2)))))
                if argty == LSV:
                    arg = Seg(e, st, "b", "e", "s").val
                elif argty == DE:
                    names = [f["n"] for f in P.adts[DE]["variants"][0]["f"]]
                    m = {"src": ref(e, st, point("b")), "dst": ref(e, st, point("e"))}
                    arg = Adt(DE, 0, [m[n] for n in names], ("adt", DE, (T, ("const", 2))))
                else:
                    continue
                dv = sub(d_, o_) if through else d_

                def side(o, q, dv=dv):
                    return o.sign(cross(dv, sub(q, o_)))

                def line_spec(o, x):
                    if x.kind != "ret":
                        return "a result, not a panic"
                    # end points on the line count as lying to its left
                    want = "Some" if (side(o, b) >= 0) != (side(o, c) >= 0) else "None"
                    return None if o.vname(x.val) == want else want

                def half_spec(o, x):
                    if x.kind != "ret":
                        return "a result, not a panic"
                    s1, s2 = side(o, b), side(o, c)
                    w = o.sign(det(b, c, o_))
                    want = None
                    if s1 == 0 and s2 == 0:
                        pass
                    elif s1 == 0:
                        want = s2 if w == s2 else None
                    elif s2 == 0:
                        want = s1 if w == -s1 else None
                    elif s1 != s2:
                        want = 0 if w == s2 else None
                    got = o.vname(x.val)
                    if want is None:
                        return None if got == "None" else "None (no forward crossing)"
                    if got == "None":
                        return f"Crossing({orient_name(want)})"
                    inner = o.field(x.val, 0, 1)
                    g = o.vname(o.field(inner, 0, o.variant(inner)))
                    return None if g == orient_name(want) else f"Crossing({orient_name(want)})"
                Table(ctx, f"{nm} {'through a point' if through else 'along a vector'} x {argty.split('::')[-1]}", k, [self_, arg], st,
                      line_spec if nm == "LineSoS" else half_spec, cat, NAMES, eng=e).run()

    # constructors and conversions keep origin and direction
    n = 0
    for k in ctx.find(name="from", trait="core::convert::From", self_ty=lambda t: t and t[0] == "adt" and t[1] in (LINE, LN + "LineSoS", LN + "HalfLineSoS")):
        f = P.fns[k]
        src = f["impl_trait_args"][1]
        if src[0] == "adt" and src[1] in (LINE, LN + "LineSoS", LN + "HalfLineSoS"):
            e, st = ctx.engine(), State()
            v = line(e, st, True)
            if src[1] != LINE:
                v = Adt(src[1], 0, [v], src)
            n += 1
            same_line(ctx, e, st, f"{short(src[1])} -> {short(f['impl_self'][1])}", k, [v], "o", "d", True)
    if n < 4:
        ctx.missing("conversions between lines, SoS lines and half-lines", n)
    for ty in (LINE, LN + "HalfLineSoS"):
        for ctor, through in (("new_through", True), ("new_directed", False)):
            k = ctx.one(ty + "::" + ctor)
            if k:
                e, st = ctx.engine(), State()
                same_line(ctx, e, st, f"{short(ty)}::{ctor}", k, [ref(e, st, point("o")), ref(e, st, point("d") if through else vector("d"))], "o", "d", through)

    # the crossing point of two lines through points
    k = ctx.one(LINE + "::intersection_point")
    if k:
        e, st = ctx.engine(), State()
        l1, l2 = line(e, st, True, "o", "d"), line(e, st, True, "b", "e")
        D = cross(sub(d_, o_), sub(c, b))
        t = cross(sub(b, o_), sub(c, b))
        want = [o_[i] * D + t * (d_[i] - o_[i]) for i in (0, 1)]

        def spec(o, x):
            if x.kind != "ret":
                return "a result, not a panic"
            s = o.sign(D)
            got = o.vname(x.val)
            if s == 0:
                return None if got == "None" else "None (parallel lines)"
            if got == "None":
                return "Some(point)"
            p = o.eng.deref(o.st, o.field(x.val, 0, 1))
            ar = o.eng.deref(o.st, o.field(p, 0))
            for i in (0, 1):
                q = o.eng.deref(o.st, ar.f[i])
                if not isinstance(q, Num):
                    return None
                if (q.p - want[i] * inverse(D)).t:
                    return f"the common point of both lines (axis {'xy'[i]})"
            return None
        Table(ctx, "Line::intersection_point", k, [ref(e, st, l1), ref(e, st, l2)], st, spec, cat, NAMES, eng=e).run()


def short(p):
    return p.split("::")[-1]


def same_line(ctx, e, st, name, k, args, o_, d_, through):
    def spec(o, x):
        if x.kind != "ret":
            return "a line"
        v = e.deref(o.st, x.val)
        while isinstance(v, Adt) and v.path != LINE:
            v = e.deref(o.st, o.field(v, 0))
        if not isinstance(v, Adt):
            return None
        names = [f["n"] for f in e.prog.adts[LINE]["variants"][0]["f"]]
        og, dr = o.field(v, names.index("origin")), o.field(v, names.index("direction"))
        if e.key(o.st, e.deref(o.st, og)) != e.key(o.st, point(o_)):
            return "the given origin"
        if o.vname(dr) != ("Through" if through else "Vector"):
            return f"a direction given as {'a second point' if through else 'a vector'}"
        q = e.deref(o.st, o.field(dr, 0, o.variant(dr)))
        return None if e.key(o.st, q) == e.key(o.st, point(d_) if through else vector(d_)) else "the given direction"
    Table(ctx, name, k, args, st, spec, None, eng=e).run()
