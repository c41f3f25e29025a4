import numpy as np
import small
from polyg import *
from spec import Table, Rows, Catalogue
from loops import loops_of, ring_loop
from engine import Inconclusive
from ctx import SubCtx, best_of

LEVEL = "other"
EXPLANATION = ("The boundary loop of point location is analysed as an induction over ring positions: every iteration path and every exit is a row of a decision "
               "table over the orientation, order and parity facts of one symbolic edge, compared with the even-odd rule; the convex variant's binary search is "
               "compared with its bracketing rule and its final triangle test with the polygon's real edges."
               " Rings of three and four vertices are decided a second time with the loops unrolled at that fixed size, whatever form the loop has: paths are merged by verdict and each disjunction is represented by the catalogue polygons and points it contains.")
ASSUMPTIONS = ["the polygon is simple, has one ring, and its boundary iteration is cyclic (C11)",
               "even-odd counting of boundary crossings of a ray decides membership of points off the boundary (Jordan curve theorem)",
               "candidate mismatches are reported when inhabited by a catalogue of small integer configurations"]
LOC = R + "data::PointLocation"


def between(o, a, b, c):
    """position of c relative to the closed segment a-b: src, dst, inner or off"""
    if o.sign(a[0] - c[0]) == 0 and o.sign(a[1] - c[1]) == 0:
        return "src"
    if o.sign(b[0] - c[0]) == 0 and o.sign(b[1] - c[1]) == 0:
        return "dst"
    if o.sign(det(a, b, c)) != 0:
        return "off"
    for i in (0, 1):
        s, t = o.sign(a[i] - c[i]), o.sign(b[i] - c[i])
        if s == t and s != 0:
            return "off"
    return "inner"


def crosses(o, a, b, c, axis, sgn, closed_low):
    """does the open ray from c along sgn*axis cross edge a-b under the half-open rule on the other axis"""
    t = 1 - axis
    sa, sb = o.sign(a[t] - c[t]), o.sign(b[t] - c[t])
    if closed_low:
        ua, ub = sa > 0, sb > 0         # points level with c count as below
    else:
        ua, ub = sa >= 0, sb >= 0
    if ua == ub:
        return False
    d = o.sign(det(a, b, c))            # c left of a->b: +
    up = ub
    # going up along the other axis, c lies left of the edge iff the edge is to the right of c
    right = (d > 0) == up if t == 1 else (d < 0) == up
    return right if sgn > 0 else not right


def locate(ctx):
    P = ctx.P
    key = ctx.one(POLY + "::locate")
    if not key:
        return
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    q = ref(e, st, point("q"))
    n = p.size(st)
    e.add_sign(st, e.seq_len(st, p.rings(st)) - ONE, ZER)
    e.add_sign(st, n - Poly.const(3), POS | ZER)
    where = ctx.where(P.fns[key])
    try:
        outs = e.run(key, [p.ref, q], st)
        loops = [ring_loop(e, info, os, n) for info, os in loops_of(outs)]
        if not loops:
            raise Inconclusive("no loop over the boundary")
    except Inconclusive as x:
        ctx.inconclusive("Polygon::locate", key, str(x))
        return
    c = xy("q")
    bnd = [l for l in loops if any(r.kind == "early" for r in l.rows)]
    if not bnd:
        ctx.violation(f"no-boundary-exit|{key}", where, "no path of Polygon::locate decides during the walk that the point lies on an edge", {})
        return

    def ab(o, l):
        a = coords(e, o.st, p.vertex(o.st, l.k))
        b = coords(e, o.st, p.vertex(o.st, succ(o, l.k, n)))
        return a, b

    # the catalogue ranges over the query, the edge at the position, its successor, and the wrap-around vertex
    def catalogue(l):
        s = l.rows[0].o.st.copy()
        nm = ["qx", "qy"]
        for x in (l.k, l.k + ONE, Poly.const(0)):
            nm += [repr(z) for z in coords(e, s, p.vertex(s, x))]
        nm = list(dict.fromkeys(nm))
        return Catalogue(nm, 0, 3, rnd=4000).ignore(r"^len\(|^phi\d+$|^idiv\(|\.0$|^p\.rings\[0\]\[[^\]]*\]\.0$"), nm

    # ---- boundary exits: exactly the points of the edge, with one rule for the shared end points
    for l in bnd:
        cat, nm = catalogue(l)

        def spec_exit(o, x, l=l):
            a, b = ab(o, l)
            if o.sign(a[0] - b[0]) == 0 and o.sign(a[1] - b[1]) == 0:
                return None
            if between(o, a, b, c) == "off":
                return "no verdict yet: the point is not on this edge"
            return expect_enum(o, x, "OnBoundary")
        Rows(ctx, "Polygon::locate, leaving during the walk", key, [r.o for r in l.rows if r.kind == "early"], st, spec_exit, cat, nm, eng=e).run()

        def passing(sub, end, l=l):
            def spec_back(o, x):
                a, b = ab(o, l)
                if o.sign(a[0] - b[0]) == 0 and o.sign(a[1] - b[1]) == 0:
                    return None
                return "OnBoundary: the point lies on this edge" if between(o, a, b, c) in ("inner", end) else None
            Rows(sub, "Polygon::locate, passing an edge", key, [r.o for r in l.rows if r.kind == "back"], st, spec_back, cat, nm, eng=e).run()
        best_of(ctx, [lambda sub, end=end: passing(sub, end) for end in ("src", "dst")])

    # ---- parity
    done = False
    for l in loops:
        acc = l.accumulators()
        res = None
        rules = [(ax, sg, cl) for ax in (0, 1) for sg in (1, -1) for cl in (True, False)]
        # the verdict at the end tells which accumulator carries the parity
        ends_ = [r for r in l.rows if r.kind == "done"]
        carrier, par = None, None
        for a, i0 in acc.items():
            try:
                par = [(r, parity(e, r.o, a)) for r in ends_]
            except Inconclusive:
                continue
            if all(v is not None for _, v in par):
                carrier = a
                break
        if carrier is None:
            continue
        done = True
        i0 = acc[carrier]
        w = narrow(l, carrier)
        if w:
            ctx.violation(f"narrow-counter|{key}", where, f"Polygon::locate counts crossings in a {w} that keeps growing; a boundary with more crossings than that overflows it", {})
        odd0 = (i0.p.const_val() % 2 == 1) if isinstance(i0, Num) and i0.p.is_const() else i0 if isinstance(i0, bool) else None
        if odd0 is None:
            ctx.inconclusive("Polygon::locate parity", key, "entry value of the crossing counter")
            return

        def spec_end(o, x):
            odd = parity(e, x, carrier) != odd0
            if x.kind != "ret":
                return "a verdict"
            return expect_enum(o, x, "Inside" if odd else "Outside")
        Rows(ctx, "Polygon::locate, verdict after the walk", key, [r.o for r in ends_], st, spec_end, None, eng=e).run()
        cat, nm = catalogue(l)
        backs = [r for r in l.rows if r.kind == "back"]

        def counting(sub, ax, sg, cl, l=l):
            def spec_par(o, x):
                a, b = ab(o, l)
                if between(o, a, b, c) != "off":
                    return None
                u = [r for r in backs if r.o is x][0].upd[carrier][1]
                t = toggles(carrier, u, x.st, o)
                want = crosses(o, a, b, c, ax, sg, cl)
                return None if t is None or t == want else "the crossing " + ("counted" if want else "ignored") + f" (ray along {'-' if sg < 0 else ''}{'xy'[ax]}, end points level with the point {'below' if cl else 'above'})"
            Rows(sub, "Polygon::locate, crossing parity", key, [r.o for r in backs], st, spec_par, cat, nm, eng=e).run()
        best_of(ctx, [lambda sub, r=r: counting(sub, *r) for r in rules])
    if not done:
        ctx.inconclusive("Polygon::locate parity", key, "no loop variable was recognised as the crossing parity")


def narrow(l, name):
    """type of a counter of at most 16 bits that is stepped by addition without wrapping"""
    for r in l.rows:
        u = r.upd.get(name)
        if r.kind == "back" and u and isinstance(u[1], Num) and u[1].ty is not None and u[1].ty[0] == "int" and u[1].ty[1] in ("u8", "i8", "u16", "i16"):
            d = u[1].p - Poly.atom(name)
            if d.is_const() and d.const_val() != 0:
                return u[1].ty[1]
    return None


def parity(e, o, name):
    """True/False when the facts of an exit decide the parity of the loop variable, None otherwise"""
    v = o.st.facts.get(("bool", name))
    if isinstance(v, bool):
        return v
    a = Poly.atom(name)
    for k, m in o.st.facts.items():
        if not isinstance(k, Poly) or not any(name in x for x in k.atoms()):
            continue
        for s in (k, -k):
            d = a - s                                            # a - 2*(a / 2)
            if len(d.t) == 1 and d.t[0][1] == 2 and d.t[0][0] and d.t[0][0][0] == f"idiv({name};2)":
                return False if m == ZER else True if m & ZER == 0 else None
            for off in (ZERO, ONE):                              # (a & 1), (a & 1) - 1
                d = s + off
                if len(d.t) == 1 and d.t[0][1] == 1 and d.t[0][0] in ((f"BitAnd({name},1)",), (f"BitAnd(1,{name})",)):
                    z = m == ZER
                    if z or m & ZER == 0:
                        return z == (off == ONE)
    return None


def toggles(name, upd, st, o):
    if isinstance(upd, Num):
        d = upd.p - Poly.atom(name)
        if d.is_const():
            return d.const_val() % 2 == 1
        if len(upd.p.t) == 1 and upd.p.t[0][1] == 1 and upd.p.t[0][0] in ((f"BitXor({name},1)",), (f"BitXor(1,{name})",)):
            return True
        if any(name in a and a != name for a in d.atoms()):
            raise Inconclusive("update of the crossing counter")
        for c in (0, 1):
            if o.sign(d - Poly.const(c)) == 0:
                return c == 1
        return None
    if isinstance(upd, Opq) and upd.t == name:
        return False
    if isinstance(upd, bool) and isinstance(st.facts.get(("bool", name)), bool):
        return upd != st.facts[("bool", name)]
    raise Inconclusive("update of the crossing counter")


def convex_locate(ctx):
    P = ctx.P
    CONVEX = PG + "convex::PolygonConvex"
    key = ctx.one(CONVEX + "::locate")
    if not key:
        return
    where = ctx.where(P.fns[key])
    e, st = ctx.engine(), State()
    ins = [i for i, f in enumerate(P.adts[CONVEX]["variants"][0]["f"])]
    slf = e.mkdeep(st, "c", ("ref", ("adt", CONVEX, (T,)), False))
    inner = [i for i in ins if is_adt(POLY)(P.field_ty(("adt", CONVEX, (T,)), 0, i))]
    if len(inner) != 1:
        return ctx.inconclusive("PolygonConvex::locate", key, "polygon field not unique")
    p = Poly_.__new__(Poly_)
    pr = Poly_(e, st.copy(), "dummy")
    p.__dict__.update(pr.__dict__)
    p.ref = Ref(slf.c, slf.pr + ((".", inner[0]),), False)
    q = ref(e, st, point("q"))
    n = p.size(st)
    e.add_sign(st, n - Poly.const(3), POS | ZER)
    e.add_sign(st, e.seq_len(st, p.rings(st)) - ONE, ZER)
    c = xy("q")
    try:
        outs = e.run(key, [slf, q], st)
        ls = loops_of(outs)
        if len(ls) != 1:
            raise Inconclusive(f"{len(ls)} loops instead of one bracketing loop")
        info, os_ = ls[0]
        backs = [o for o in os_ if o.kind == "back"]
        ups = [e.phi_updates(info, o.st) for o in backs]
        if any(set(u) != set(ups[0]) for u in ups) or len(ups[0]) != 2:
            raise Inconclusive("the bracketing loop does not carry two bounds")
        a, b = sorted(ups[0])
        ia, ib = ups[0][a][0], ups[0][b][0]
        if not all(isinstance(x, Num) for x in (ia, ib)):
            raise Inconclusive("bounds")
        lo, hi = (a, b) if ia.p.is_const() else (b, a)
        L, U = Poly.atom(lo), Poly.atom(hi)
        il, iu = ups[0][lo][0].p, ups[0][hi][0].p
        if not il.is_const() or not (iu - n).is_const():
            raise Inconclusive("entry bounds")
        S = {lo: set(), hi: set()}
        for o, u in zip(backs, ups):
            nl, nu = u[lo][1].p, u[hi][1].p
            moved = [x for x, y, z in ((lo, nl, L), (hi, nu, U)) if y != z]
            if len(moved) != 1:
                raise Inconclusive("both or neither bound moved")
            m = nl if moved[0] == lo else nu
            d = det(coords(e, o.st, p.vertex(o.st, ZERO)), coords(e, o.st, p.vertex(o.st, m)), c)
            S[moved[0]] |= {s for s, b_ in ((-1, NEG), (0, ZER), (1, POS)) if e.possible(o.st, d) & b_}
        done = [o for o in os_ if o.kind == "ret"]
        if not done:
            raise Inconclusive("no exit")
    except Inconclusive as x:
        return ctx.inconclusive("PolygonConvex::locate", key, str(x))
    ctx.obligation("PolygonConvex::locate brackets the point's direction", rows=len(backs), function=key)
    if iu != n - ONE:
        ctx.violation(f"convex-upper|{key}", where, f"PolygonConvex::locate starts with the upper bound {iu} instead of the last vertex {n - ONE}", {})
    if il.const_val() not in (0, 1):
        ctx.violation(f"convex-lower|{key}", where, f"PolygonConvex::locate starts with the lower bound {il} instead of the first edge", {})
    if -1 in S[lo]:
        ctx.violation(f"convex-lower-side|{key}", where, "PolygonConvex::locate raises the lower bound to a vertex whose diagonal has the point on its right", {})
    if 1 in S[hi]:
        ctx.violation(f"convex-upper-side|{key}", where, "PolygonConvex::locate lowers the upper bound to a vertex whose diagonal has the point on its left", {})
    if any(e.possible(o.st, U - L - ONE) & POS for o in done):
        ctx.violation(f"convex-exit|{key}", where, "PolygonConvex::locate may stop before the bracket is a single edge", {})
    s0 = done[0].st.copy()
    nm = ["qx", "qy"]
    for x in (ZERO, L, U):
        nm += [repr(z) for z in coords(e, s0, p.vertex(s0, x))]
    cat = Catalogue(nm, 0, 3).ignore(r"^len\(|^phi\d+$|^idiv\(|\.0$")

    def spec(o, x):
        p0, pl, pu = (coords(e, o.st, p.vertex(o.st, z)) for z in (ZERO, L, U))
        if x.kind != "ret":
            return None
        if o.sign(det(p0, pl, pu)) <= 0:
            return None
        first = o.sign(L - ONE) <= 0
        last = o.sign(n - ONE - U) == 0
        sl, su, se = o.sign(det(p0, pl, c)), o.sign(det(p0, pu, c)), o.sign(det(pl, pu, c))
        if not first and sl not in S[lo] or not last and su not in S[hi]:
            return None
        if sl < 0 or su > 0 or se < 0:
            want = "Outside"
        elif se == 0 or (sl == 0 and first) or (su == 0 and last):
            want = "OnBoundary"
        elif sl == 0 and su == 0:
            want = "OnBoundary"      # the first vertex itself
        else:
            want = "Inside"
        return expect_enum(o, x, want)
    Rows(ctx, "PolygonConvex::locate, final triangle", key, done, st, spec, cat, nm, eng=e).run()


def on_small_rings(ctx, name, key, self_, sizes, pick):
    """self_(e, st) -> (receiver, polygon)"""
    c = xy("q")
    names = {-1: "Outside", 0: "OnBoundary", 1: "Inside"}
    for N in sizes:
        nm = f"{name}, ring of {N} vertices"
        try:
            e, st = ctx.engine(), State()
            slf, p = self_(e, st)
            q = ref(e, st, point("q"))
            small.fix(e, st, p, N, 20000)
            rows, qs = small.spread(*small.queried(pick(N)))
            sm = small.Small(e, st, p, N, rows)
            sm.add(c, (qs[:, 0], qs[:, 1]))
            want = small.place(rows, qs)
            outs = e.run(key, [slf, q], st)

            def verdict(o):
                need = lambda i: names[int(want[i])]
                if o.kind == "panic":
                    return np.ones(len(rows), dtype=bool), need, ""
                v = e.deref(o.st, o.val)
                if not isinstance(v, Adt):
                    return None
                got = e.prog.adts[v.path]["variants"][v.v]["n"]
                return want != {b: a for a, b in names.items()}.get(got), need, got
            small.table(ctx, nm, key, e, outs, sm, verdict, lambda i: f" and the point {tuple(map(int, qs[i]))}")
        except Inconclusive as x:
            ctx.inconclusive(nm, key, str(x))


def small_rings(ctx):
    P = ctx.P
    CONVEX = PG + "convex::PolygonConvex"

    def plain(e, st):
        p = Poly_(e, st)
        return p.ref, p

    def conv(e, st):
        inner = [i for i in range(len(P.adts[CONVEX]["variants"][0]["f"])) if is_adt(POLY)(P.field_ty(("adt", CONVEX, (T,)), 0, i))]
        if len(inner) != 1:
            raise Inconclusive("polygon field not unique")
        slf = e.mkdeep(st, "c", ("ref", ("adt", CONVEX, (T,)), False))
        p = Poly_(e, st.copy(), "dummy")
        p.ref = Ref(slf.c, slf.pr + ((".", inner[0]),), False)
        return slf, p
    key = ctx.one(POLY + "::locate")
    if key:
        on_small_rings(ctx, "Polygon::locate", key, plain, (3, 4, 5, 6), lambda N: small.polygons(N, m=250))
    key = ctx.one(CONVEX + "::locate")
    if key:
        on_small_rings(ctx, "PolygonConvex::locate", key, conv, (3, 4, 5, 6, 7), lambda N: small.convex(small.polygons(N, g=4 if N < 6 else 9, m=2000))[:150])


def run(ctx):
    locate(ctx)
    convex_locate(ctx)
    small_rings(ctx)
