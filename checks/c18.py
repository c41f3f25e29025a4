from polyg import *
from spec import Table, Rows, Catalogue
from loops import loops_of, ring_loop, sums, canon_sum
from engine import Inconclusive
from ctx import best_of
import math
from fractions import Fraction
import numpy as np
import small
from poly import INVS
from effects import Effects, arith, short

LEVEL = "other"
EXPLANATION = ("Measures of a polygon are folds over its boundary: the boundary loops are analysed as an induction over ring positions, accumulators become symbolic "
               "sums over all edges in a normal form invariant under cyclic shifts, and the returned expressions are compared with the defining sums; extrema are "
               "decided by the update table of each accumulator."
               " Rings of fixed small size are decided again with the loops unrolled, as polynomial identities over all coordinates.")
ASSUMPTIONS = ["boundary iteration is cyclic (C11)", "arithmetic of the return type is exact (field semantics)",
               "the lexicographically extreme vertex of a simple polygon is convex, so its turn is the orientation of the ring"]


def setup(ctx, ngt=2):
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    n = p.size(st)
    e.add_sign(st, e.seq_len(st, p.rings(st)) - ONE, POS | ZER)
    e.add_sign(st, n - Poly.const(ngt + 1), POS | ZER)
    return e, st, p, n


def folded(ctx, name, key):
    """engine, polygon, size, outcomes and recognised boundary loops of a one-argument measure"""
    e, st, p, n = setup(ctx)
    outs = e.run(key, [p.ref], st)
    ls = []
    for info, os_ in loops_of(outs):
        for first in (ZERO, ONE):
            try:
                ls.append(ring_loop(e, info, os_, n, first))
                ls[-1].first = first
                break
            except Inconclusive:
                if first == ONE:
                    raise
    return e, st, p, n, outs, ls


def total(ctx, name, path, want, scale=1):
    key = ctx.one(path)
    if not key:
        return
    where = ctx.where(ctx.P.fns[key])
    try:
        e, st, p, n, outs, ls = folded(ctx, name, key)
        if any(l.first != ZERO for l in ls) or not ls:
            raise Inconclusive("the sum does not start at the first vertex")
        env = sums(e, ls, lambda s, q: coords(e, s, p.vertex(s, q)), n)
        rets = [o for o in outs if o.kind == "ret"]
        if not rets:
            raise Inconclusive("no return")
        quot = {q for _, _, q, _ in e.divisions}
        results = {g for o in rets for g in want.values(e, o)}
        if quot - results:
            ctx.violation(f"{name}|rounding|{key}", where, f"{name}: a quotient is computed and then used in further arithmetic ({sorted(map(repr, quot - results))[0]}); "
                          "in integer coordinates it is rounded before the end of the computation", {"function": key})
        for o in rets:
            if e.possible(o.st, n - Poly.const(8)) & POS == 0:
                continue            # rings this small are decided one size at a time
            got = want.values(e, o)
            for comp, (g, num_, den) in enumerate(zip(got, want.num, want.den)):
                unk = [a for a in g.atoms() if a.startswith("phi") and a not in env]
                if unk or any(a.startswith(("inv(", "idiv(")) and not (a.startswith("inv(") and a[4:-1] in env) for a in g.atoms()):
                    raise Inconclusive(f"the returned expression {g} is not a ratio of boundary sums")
                # bring to a common form: g * den == num, with 1/x atoms cancelled against the sums they invert
                gs = ZERO
                dens = [a[4:-1] for a in g.atoms() if a.startswith("inv(")]
                if len(dens) > 1:
                    raise Inconclusive("several denominators")
                if dens:
                    cleared = g * Poly.atom(dens[0])
                    if any(a.startswith("inv(") for a in cleared.atoms()):
                        raise Inconclusive("nested denominators")
                    gn, gd = cleared.subst(env), env[dens[0]]
                else:
                    gn, gd = g.subst(env), ONE
                if gn * den != num_ * gd:
                    ctx.violation(f"{name}|{key}", where, f"{name}: the returned value{want.comp(comp)} is {gn} / ({gd}) in terms of boundary sums (S[..] over every vertex a with successor b) "
                                  f"where {num_} / ({den}) is required", {"function": key})
        ctx.obligation(name, rows=len(rets) * len(want.num), paths=len(outs), function=key)
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


class Scalar:
    def __init__(self, num_, den=ONE):
        self.num, self.den = [num_], [den]

    def values(self, e, o):
        return [num(e, o.st, o.val)]

    def comp(self, i):
        return ""


class Pt(Scalar):
    def __init__(self, nums, den):
        self.num, self.den = nums, [den] * 2

    def values(self, e, o):
        return list(coords(e, o.st, o.val))

    def comp(self, i):
        return "'s " + "xy"[i] + " coordinate"


def bounding_box(ctx):
    key = ctx.one(POLY + "::bounding_box")
    if not key:
        return
    name = "Polygon::bounding_box"
    where = ctx.where(ctx.P.fns[key])
    try:
        e, st, p, n, outs, ls = folded(ctx, name, key)
        if len(ls) != 1:
            raise Inconclusive("not a single fold")
        l = ls[0]
        rets = [r.o for r in l.rows if r.kind == "done"]
        if len(rets) != 1 or any(r.kind == "early" for r in l.rows):
            raise Inconclusive("several exits")
        o = rets[0]
        lohi = e.deref(o.st, o.val)
        acc = l.accumulators()
        roles = {}
        for w, what in ((0, "minimum"), (1, "maximum")):
            c = coords(e, o.st, e.project(o.st, lohi, (".", w)))
            for ax in (0, 1):
                nm = repr(c[ax])
                if nm not in acc:
                    if c[ax].is_const() or c[ax] in coords(e, o.st, p.vertex(o.st, ZERO)):
                        ctx.violation(f"{name}|fixed{w}{ax}|{key}", where, f"{name}: the returned {'xy'[ax]} {what} is {c[ax]}, whatever the other vertices are", {})
                        return
                    raise Inconclusive(f"the returned {what} is not an accumulator")
                roles[(w, ax)] = nm
        for (w, ax), nm in roles.items():
            ini = acc[nm]
            v0 = coords(e, o.st, p.vertex(o.st, l.first - ONE if l.first == ONE else ZERO))
            if not isinstance(ini, Num):
                raise Inconclusive("entry value")
            if ini.p != v0[ax]:
                if ini.p == v0[1 - ax]:
                    ctx.violation(f"{name}|init{w}{ax}|{key}", where, f"{name}: the {'xy'[ax]} bound starts from the other coordinate of the first vertex", {})
                    return
                raise Inconclusive("entry value is not the first vertex")
            A = Poly.atom(nm)

            def spec(o, x):
                u = [r for r in l.rows if r.o is x][0].upd[nm][1]
                v = coords(e, o.st, p.vertex(o.st, l.k))[ax]
                if o.sign(Poly.atom(roles[(0, ax)]) - Poly.atom(roles[(1, ax)])) > 0:
                    return None     # the lower bound never exceeds the upper one
                s = o.sign(v - A)
                want = v if (s < 0) == (w == 0) and s != 0 else A
                if not isinstance(u, Num):
                    raise Inconclusive("update")
                if o.sign(u.p - want) != 0:
                    return f"the {'lower' if w == 0 else 'upper'} {'xy'[ax]} bound becoming {want}"
                return None
            cs = coords(e, o.st, p.vertex(o.st, l.k))
            names = [repr(c) for c in cs] + [roles[k] for k in sorted(roles)]
            Rows(ctx, f"{name}, {'lower' if w == 0 else 'upper'} {'xy'[ax]} bound", key, [r.o for r in l.rows if r.kind == "back"], st, spec,
                 Catalogue(list(dict.fromkeys(names)), -1, 1).ignore(r"^len\(|\.0$|^%s$" % "|".join(["phi0"] + [repr(l.k)])), names, eng=e).run()
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


def orientation(ctx):
    key = ctx.one(POLY + "::orientation")
    if not key:
        return
    name = "Polygon::orientation"
    try:
        e, st, p, n, outs, ls = folded(ctx, name, key)
        if len(ls) != 1:
            raise Inconclusive("not a single fold")
        l = ls[0]
        acc = [(a, i) for a, i in l.accumulators().items() if isinstance(i, Num) and i.p == ZERO]
        if len(acc) != 1:
            raise Inconclusive("the position of the extreme vertex is not a loop variable")
        m = Poly.atom(acc[0][0])
        nm_ = acc[0][0]
        backs = [r for r in l.rows if r.kind == "back"]

        def keep(sub, axes, sgn):
            def spec(o, x):
                u = [r for r in backs if r.o is x][0].upd[nm_][1]
                a, b = coords(e, o.st, p.vertex(o.st, l.k)), coords(e, o.st, p.vertex(o.st, m))
                s = o.sign(a[axes[0]] - b[axes[0]]) or o.sign(a[axes[1]] - b[axes[1]])
                if not isinstance(u, Num) or s == 0:
                    return None
                want = l.k if s * sgn < 0 else m
                return None if u.p == want else f"the {'smaller' if sgn > 0 else 'larger'} vertex kept as the extreme"
            cs = [repr(z) for q in (l.k, m) for z in coords(e, backs[0].o.st, p.vertex(backs[0].o.st, q))]
            Rows(sub, f"{name}, selection of the extreme vertex", key, [r.o for r in backs], st, spec, Catalogue(cs, 0, 3).ignore(r"^len\(|\.0$|^phi\d+$"), cs, eng=e).run()
        best_of(ctx, [lambda sub, a=a, s=s: keep(sub, a, s) for a in ((0, 1), (1, 0)) for s in (1, -1)])

        def final(o, x):
            if x.kind != "ret":
                return None
            if o.sign(n - m) <= 0:
                return None
            pts = [coords(e, o.st, p.vertex(o.st, q)) for q in (pred(o, m, n), m, succ(o, m, n))]
            return expect_enum(o, x, orient_name(o.sign(det(*pts))))
        Rows(ctx, f"{name}, turn at the extreme vertex", key, [r.o for r in l.rows if r.kind == "done"], st, final, None, eng=e).run()
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


def small_ring(ctx, key, N):
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    small.fix(e, st, p, N)
    sm = small.Small(e, st, p, N, small.spread(small.polygons(N)))
    return e, sm, e.run(key, [p.ref], st)


def on_small_rings(ctx, path, verdict, sizes=(3, 4, 5, 6, 7)):
    key = ctx.one(path)
    for N in sizes if key else ():
        name = f"{short(path)}, ring of {N} vertices"
        try:
            e, sm, outs = small_ring(ctx, key, N)
            small.table(ctx, name, key, e, outs, sm, verdict(e, sm))
        except Inconclusive as x:
            ctx.inconclusive(name, key, str(x))


def turn(e, sm):
    a2 = small.area2(sm.xy)
    names = {-1: "ClockWise", 0: "CoLinear", 1: "CounterClockWise"}

    def verdict(o):
        if o.kind == "panic":
            return np.ones(len(a2), dtype=bool), lambda i: names[int(np.sign(a2[i]))], ""
        v = e.deref(o.st, o.val)
        if not isinstance(v, Adt):
            return None
        got = e.prog.adts[v.path]["variants"][v.v]["n"]
        s = {b: a for a, b in names.items()}.get(got)
        return np.sign(a2) != s, lambda i: names[int(np.sign(a2[i]))], got
    return verdict


def box(e, sm):
    want = [sm.xy.min(axis=1), sm.xy.max(axis=1)]
    show_ = lambda i: f"({tuple(map(int, want[0][i]))}, {tuple(map(int, want[1][i]))})"

    def verdict(o):
        if o.kind == "panic":
            return np.ones(len(sm.xy), dtype=bool), show_, ""
        lohi = e.deref(o.st, o.val)
        wrong = np.zeros(len(sm.xy), dtype=bool)
        for w in (0, 1):
            for ax, c in enumerate(coords(e, o.st, e.project(o.st, lohi, (".", w)))):
                if any(a not in sm.cols for a in c.atoms()):
                    return None
                wrong |= small.value(c, sm.cols) != want[w][:, ax]
        return wrong, show_, "another box"
    return verdict


def ratio(parts, want):
    """the returned numbers are ratios of sums over the edges, compared by cross-multiplication"""
    def make(e, sm):
        nums, den = want(sm.xy)

        def verdict(o):
            show_ = lambda i: f"{tuple(int(x[i]) for x in nums)} / {int(den[i])}"
            if o.kind == "panic":
                return den != 0, show_, ""
            wrong = np.zeros(len(sm.xy), dtype=bool)
            for g, w in zip(parts(e, o), nums):
                inv = {a for m, _ in g.t for a in m if a.startswith("inv(")}
                if len(inv) > 1 or any(a not in INVS for a in inv):
                    return None
                d = ONE
                for a in inv:
                    d = INVS[a]
                    g = Poly({tuple(x for x in m if x != a): c for m, c in g.t if a in m}) + Poly({m: c for m, c in g.t if a not in m}) * d
                if any(a not in sm.cols for a in g.atoms() | d.atoms()):
                    return None
                k = math.lcm(*[Fraction(c).denominator for _, c in (g + d).t], *[Fraction(c).denominator for _, c in g.t])
                v, u = (small.value(Poly({m: int(c * k) for m, c in z.t}), sm.cols) for z in (g, d))
                wrong |= v * den != w * u
            return wrong & (den != 0), show_, "another value"
        return verdict
    return make


def shoelace(rows):
    return [small.area2(rows)], np.ones(len(rows), dtype=np.int64)


def mid(rows):
    c = [0, 0]
    for k in range(rows.shape[1]):
        a, b = rows[:, k], rows[:, (k + 1) % rows.shape[1]]
        cr = a[:, 0] * b[:, 1] - b[:, 0] * a[:, 1]
        c = [c[i] + (a[:, i] + b[:, i]) * cr for i in (0, 1)]
    return c, 3 * small.area2(rows)


def conversions(ctx):
    """measures with a caller-chosen result type convert coordinates before doing arithmetic on them"""
    P = ctx.P
    ef = Effects(P)
    for path in (POLY + "::signed_area_2x", POLY + "::signed_area", R + "data::point::Point::squared_euclidean_distance", R + "data::triangle::TriangleView::signed_area_2x",
                 R + "data::triangle::TriangleView::signed_area"):
        key = ctx.one(path)
        if not key:
            continue
        f = P.fns[key]
        coord = [a for a in (f.get("impl_self") or (0, 0, ()))[2] if a[0] == "param"]
        n = 0
        for s, par in ef.sites(key):
            n += 1
            t = arith(s)
            if t is not None and coord and t == coord[0]:
                ctx.violation(f"narrow-arithmetic|{path}", {"file": P.fns[s.key]["span"][0], "line": s.line, "function": P.fns[s.key]["path"]},
                              f"{short(path)} does arithmetic ({s.what}) in the coordinate type before converting to the requested result type", {"path": ef.path(par, s.key)})
        ctx.obligation(f"{short(path)}: coordinates are converted before any arithmetic", rows=n, function=key)


def run(ctx):
    S = lambda expr: canon_sum(expr)
    ax, ay, bx, by = (Poly.atom(x) for x in ("ax", "ay", "bx", "by"))
    cr = ax * by - bx * ay
    A2 = S(cr)
    total(ctx, "Polygon::signed_area_2x", POLY + "::signed_area_2x", Scalar(A2))
    total(ctx, "Polygon::signed_area", POLY + "::signed_area", Scalar(A2, Poly.const(2)))
    total(ctx, "Polygon::centroid", POLY + "::centroid", Pt([S((ax + bx) * cr), S((ay + by) * cr)], A2.scale(3)))
    bounding_box(ctx)
    orientation(ctx)
    one = lambda e, o: [num(e, o.st, o.val)]
    two = lambda e, o: list(coords(e, o.st, o.val))
    on_small_rings(ctx, POLY + "::signed_area_2x", ratio(one, shoelace), (3, 4, 5, 6, 7, 8))
    on_small_rings(ctx, POLY + "::signed_area", ratio(one, lambda r: (shoelace(r)[0], shoelace(r)[1] * 2)), (3, 4, 5, 6, 7, 8))
    on_small_rings(ctx, POLY + "::centroid", ratio(two, mid), (3, 4, 5, 6, 7, 8))
    on_small_rings(ctx, POLY + "::bounding_box", box, (3, 4, 5, 6, 7, 8))
    on_small_rings(ctx, POLY + "::orientation", turn)
    conversions(ctx)
