import re
from geo import *
from polyg import *
from loops import loops_of, ring_scan
from engine import Inconclusive, State
from c25 import raw
from c23 import World, walked, nx, ad, where_of, part, by_types

LEVEL = "other"
EXPLANATION = ("Polygon comparison, boundary-walk comparison, the ear test and the colinearity test of point lists are loops over the boundary. One pass stands for "
               "all of them: on every path through a pass the facts known about the vertex looked at must justify going on, answering yes or answering no."
               " An answer given before any vertex was walked over has to be forced by the facts of its path.")
ASSUMPTIONS = ["cursor steps and boundary walks are what C11 decides, orientation C01/C03, locating a point in a triangle C05",
               "a pass that compares something the analysis does not recognise is inconclusive, not an alarm"]
PEQ = "core::cmp::PartialEq"


def is_true(e, o):
    if raw(o):
        raise Inconclusive("a decision by coordinate arithmetic instead of the predicates")
    v = e.deref(o.st, o.val)
    return v if isinstance(v, bool) else None


def equality(W):
    """equality of two points: one decision per unordered pair of names"""
    def f(neg):
        def g(eng, st, a, c, dty, fr, sp):
            p, q = sorted(W.S.point(st, x) for x in a)
            if p == q:
                return [(not neg, st)]
            return [(bool(i) != neg, z) for i, z in W.S.choice(st, W.S.intern(f"eq[{p}|{q}]"), 2)]
        return g
    W.S.on(f(False), trait=PEQ, name="eq", self_ty=lambda t: ad(t) == POINT)
    for k, v in list(W.P.fns.items()):
        if v.get("impl_trait") == PEQ and v["name"] == "ne" and ad(v.get("impl_self")) == POINT:
            W.e.fn_overrides[k] = f(True)


def eq_fact(W, o, p, q):
    p, q = sorted((W.S.intern(p), W.S.intern(q)))
    return o.st.facts.get(("choice", W.S.intern(f"eq[{p}|{q}]")))


# ---------------------------------------------------------------- ear test
def ear(ctx):
    key = ctx.one(CURSOR + "::is_ear")
    if not key:
        return
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    located, names = {}, []

    def locate(eng, s, a, c, dty, fr, sp):
        names[:] = [v["n"] for v in P.adts[dty[1]]["variants"]]
        t, p = S.points_in(s, a[0]), S.points_in(s, a[1])
        if len(t) != 3 or len(p) != 1:
            raise Inconclusive("located point or triangle not recognised")
        nm = S.intern(f"loc[{'|'.join(t)};{p[0]}]")
        located[nm] = ([S.full(x) for x in t], S.full(p[0]))
        return [(Adt(dty[1], i, [], dty), x) for i, x in S.choice(s, nm, len(names))]
    S.on(locate, path=R + "data::triangle::TriangleView::locate")
    me = W.cur("c")
    outs = e.run(key, [Ref(e.new_cell(W.st, me), (), False)], W.st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"ear test: {m}", d or {})
    tri = ["pt(prev(c))", "pt(c)", "pt(next(c))"]
    its = sorted({k[1] for o in outs for k in o.st.facts if isinstance(k, tuple) and k[0] == "walk"})
    n = 0
    cover = {}
    for it in its:
        m = re.fullmatch(r"range\[(.*);(\w+);(.*)\]", S.full(it))
        if not m:
            continue
        lo, hi = (offset(x) for x in (m.group(1), m.group(3)))
        if lo is None or hi is None:
            continue
        cover[it] = (lo, hi - (m.group(2) == "Excluded"))
    if not its and not loops_of(outs) and not located and all(o.kind == "ret" for o in outs):
        vs = {is_true(e, o) for o in outs}
        if vs <= {True, False}:
            if vs == {False}:
                bad("never", "no vertex is ever called an ear")
            else:
                bad("early", "a vertex is called an ear before all other vertices are looked at")
            return
    if not cover or len(cover) != len(its):
        raise Inconclusive("the walk over the other vertices was not recognised")
    for it, (lo, hi) in cover.items():
        # the other vertices are those from two steps ahead to two steps back
        if lo > 2 or hi < -2:
            bad("skip", "vertices next to the ear's neighbours are not looked at", {"first": lo, "last": hi})
        sized = any(isinstance(k, Poly) and any("len(" in str(a) or ".size" in str(a) for a in k.atoms()) for o in outs for k in o.st.facts)
        if S.full(it).split(";")[1] != "Excluded" and (lo, hi) == (2, -2) and not sized:
            bad("triangle", "on a boundary of three vertices the walk looks at the corners themselves, so no vertex of a triangle is an ear")
        if lo < 2 or hi > -2:
            bad("corner", "a corner of the ear itself is looked at, so no vertex is an ear", {"first": lo, "last": hi})
    for o in outs:
        t = S.turn_mask(o.st, *[S.intern(x) for x in tri])
        last = [it for it in its if walked(o, it)[-1:] == [True]]
        locs = {nm: names[o.st.facts[("choice", nm)]] for nm in located if ("choice", nm) in o.st.facts}
        for nm in locs:
            if sorted(located[nm][0]) != sorted(tri):
                bad("triangle", "a triangle other than that of the vertex and its two neighbours is looked into", {"corners": located[nm][0]})
        n += 1
        if o.kind == "ret":
            v = is_true(e, o)
            if v is None:
                raise Inconclusive("the answer was not recognised")
            if v:
                if t & (NEG | ZER):
                    bad("turn", "a vertex that does not turn strictly left is called an ear")
                if any(l != "Outside" for l in locs.values()):
                    bad("inside", "a vertex with another vertex on or in its triangle is called an ear")
                if t & POS and not all(walked(o, it)[-1:] == [False] for it in its):
                    bad("early", "a vertex is called an ear before all other vertices are looked at")
            elif t & POS and all(l == "Outside" for l in locs.values()):
                bad("refuse", "a strictly left turning vertex with no other vertex in its triangle is not called an ear")
        elif o.kind == "back":
            if last and not locs:
                bad("unseen", "another vertex is passed over without being located")
            if any(l != "Outside" for l in locs.values()):
                bad("ignored", "the walk goes on after a vertex was found on or in the triangle")
    ctx.obligation("ear test: corner and all other vertices", paths=n, function=key)


def offset(term):
    k = 0
    while True:
        m = re.fullmatch(r"(next|prev)\((.*)\)", term)
        if not m:
            return k if term == "c" else None
        k += 1 if m.group(1) == "next" else -1
        term = m.group(2)


# ---------------------------------------------------------------- comparing two boundary walks
def walks_equal(ctx):
    ks = ctx.find(name="eq", trait=PEQ, self_ty=lambda t: ad(t) == CITER)
    if len(ks) != 1:
        return ctx.missing("comparison of two boundary walks", len(ks))
    key = ks[0]
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    equality(W)

    def clone(eng, st, a, c, dty, fr, sp):
        return [(Opq(W.t(st, a[0]), dty), st)]
    S.on(clone, trait="core::clone::Clone", name="clone", self_ty=lambda t: ad(t) == CITER)

    def length(eng, st, a, c, dty, fr, sp):
        if ad(c.get("self") or ("adt", CITER)) != CITER:
            raise Inconclusive("length not recognised")
        return [(Num(Poly.atom(f"left({W.t(st, a[0])})", USZ), USZ), st)]
    S.on(length, trait="core::iter::traits::exact_size::ExactSizeIterator", name="len", self_ty=lambda t: ad(t) == CITER)
    ity = ("adt", CITER, (PT_TY,))
    args = [Ref(e.new_cell(W.st, Opq(n, ity)), (), False) for n in ("I", "J")]
    outs = e.run(key, args, W.st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"comparison of boundary walks: {m}", d or {})
    la, lb = Poly.atom("left(I)", USZ), Poly.atom("left(J)", USZ)
    n = 0
    for o in outs:
        a, b = (walked(o, it) for it in ("I", "J"))
        eqs = {k[1]: v for k, v in o.st.facts.items() if isinstance(k, tuple) and k[0] == "choice" and S.full(k[1]).startswith("eq[")}
        for nm in eqs:
            p = re.findall(r"pt\((.*?\])\)", S.full(nm))
            if len(p) != 2:
                raise Inconclusive("the points compared were not recognised")
            p = sorted(p)
            if not (p[0].endswith("[I]") and p[1].endswith("[J]")):
                bad("same", "a walk is compared with itself", {"compared": p})
            elif p[0][:-3] != p[1][:-3]:
                bad("step", "vertices at different steps of the two walks are compared", {"compared": p})
        lens = e.possible(o.st, la - lb)
        n += 1
        if o.kind == "ret":
            v = is_true(e, o)
            if v is None:
                raise Inconclusive("the answer was not recognised")
            if v:
                if any(x == 0 for x in eqs.values()):
                    bad("differ", "two walks with different points are called equal")
                ends = [w[-1:] == [False] for w in (a, b)]
                if not any(ends):
                    bad("early", "two walks are called equal before either of them has ended")
                elif not all(ends) and lens & (NEG | POS):
                    bad("prefix", "a walk is called equal to a longer one it is the beginning of")
            elif all(x == 1 for x in eqs.values()) and lens & ZER and not (a[-1:] != b[-1:] and a and b):
                bad("refuse", "walks of one length are called different without a difference")
        elif o.kind == "back":
            if any(x == 0 for x in eqs.values()):
                bad("ignored", "the comparison goes on after a difference")
            elif a[-1:] == [True] and b[-1:] == [True] and not eqs:
                bad("unseen", "two vertices are passed over without being compared")
    if not any(walked(o, "I") for o in outs) or not any(walked(o, "J") for o in outs):
        raise Inconclusive("the two walks were not recognised")
    ctx.obligation("comparison of boundary walks: lengths, then points step by step", paths=n, function=key)


# ---------------------------------------------------------------- equality of polygons
def polygons_equal(ctx):
    key = ctx.one(POLY + "::equals")
    if not key:
        return
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P

    def whose(st, v):
        r = e.key(st, e.deref(st, v))
        return "A" if "PA" in r and "PB" not in r else "B" if "PB" in r and "PA" not in r else None

    def boundary(eng, st, a, c, dty, fr, sp):
        w = whose(st, a[0])
        if w is None:
            raise Inconclusive("polygon not recognised")
        return [(W.iterator(st, f"boundary[{w}]", dty), st)]
    S.on(boundary, path=POLY + "::iter_boundary")

    def start(st, v):
        """(polygon, vertex the walk starts at, complete?) of a boundary walk"""
        v = e.deref(st, v)
        t = S.full(W.t(st, v)) if isinstance(v, Opq) else None
        if t is not None:
            m = re.fullmatch(r"boundary\[(\w)\]", t)
            if m:
                return m.group(1), "first", True
            m = re.fullmatch(r"range\[(.*);(\w+);(.*)\]", t)
            if m:
                lo, kind, hi = m.groups()
                full = kind == "Unbounded" or kind == "Included" and hi == nx(lo, "prev")
                return of(lo), lo, full
            raise Inconclusive("walk not recognised")
        d = dict(zip([f["n"] for f in P.adts[CITER]["variants"][0]["f"]], v.f))
        lo, hi = (S.full(W.t(st, d[x])) for x in ("cursor_head", "cursor_tail"))
        return of(lo), lo, hi == nx(lo, "prev") and e.deref(st, d["exhausted"]) is False

    def of(cur):
        m = re.search(r"boundary\[(\w)\]", cur)
        if not m:
            raise Inconclusive("walk not recognised")
        return m.group(1)

    def same(eng, st, a, c, dty, fr, sp):
        x, y = (start(st, v) for v in a)
        k = tuple(sorted((x, y)))
        st = st.copy()
        st.event(("compared", k))
        nm = S.intern("same" + repr(k))
        return [(bool(i), z) for i, z in S.choice(st, nm, 2)]
    S.on(same, trait=PEQ, name="eq", self_ty=lambda t: ad(t) == CITER)
    st = W.st
    b = P.body(key)
    args = [Ref(e.new_cell(st, e.mkdeep(st, n, POLY_TY)), (), False) for n in ("PA", "PB")]
    i = field_index(P, POLY, lambda t: vec_of(t) is not None and vec_of(vec_of(t)) is not None and is_adt(PTID)(vec_of(vec_of(t))), "rings")
    size = [e.seq_len(st, e.seq_read(st, e.deref(st, e.project(st, a, (".", i))), Poly.const(0))) for a in args]
    outs = e.run(key, args, st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"equality of polygons: {m}", d or {})
    n = 0
    its = sorted({k[1] for o in outs for k in o.st.facts if isinstance(k, tuple) and k[0] == "walk"})
    if len(its) != 1 or not re.fullmatch(r"boundary\[\w\]", S.full(its[0])):
        raise Inconclusive("the walk over the starting vertices was not recognised")
    every = S.full(its[0])[-2]
    for o in outs:
        n += 1
        evs = [ev[1] for ev in o.st.events() if ev[0] == "compared"]
        w = walked(o, its[0])
        res = [o.st.facts.get(("choice", S.intern("same" + repr(k)))) for k in evs]
        for k in evs:
            (pa, x, fa), (pb, y, fb) = k
            if pa == pb:
                bad("self", "a boundary is compared with itself")
            elif not (fa and fb):
                bad("part", "only a part of the boundary is compared", {"starts": [x, y]})
            elif (x == "first") == (y == "first"):
                bad("start", "the rotation does not start at the vertex the walk is at", {"starts": [x, y]})
            else:
                v, p = (x, pa) if y == "first" else (y, pb)
                if p != every or not re.fullmatch(r"each\d*\[boundary\[\w\]\]", v):
                    raise Inconclusive("the starting vertex was not recognised")
        if o.kind == "ret":
            v = is_true(e, o)
            if v is None:
                raise Inconclusive("the answer was not recognised")
            differ = e.possible(o.st, size[0] - size[1]) & ZER == 0
            if v and not any(res):
                bad("equal", "two polygons are called equal without an equal boundary walk")
            if not v and any(res):
                bad("differ", "two polygons are called different although a rotation of their boundaries agrees")
            elif not v and not differ and w[-1:] != [False]:
                bad("early", "two polygons are called different before every rotation was tried")
        elif o.kind == "back":
            if w[-1:] == [True] and not evs:
                bad("unseen", "a rotation is passed over without being compared")
            elif any(res):
                bad("ignored", "the comparison goes on after an equal rotation")
    ctx.obligation("equality of polygons: every rotation of one boundary against the other", paths=n, function=key)


# ---------------------------------------------------------------- colinearity of a list of points
def colinear(ctx):
    key = ctx.one(POINT + "::all_colinear")
    if not key:
        return
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    equality(W)
    st = W.st
    b = P.body(key)
    a = e.mkdeep(st, "ps", b["locals"][1])
    n = e.seq_len(st, e.deref(st, a))
    outs = e.run(key, [a], st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"colinearity of a list of points: {m}", d or {})
    rows = 0
    TURN = re.compile(r"turn\[(.*)\]$")

    def turns(o):
        """[(three names, mask)] of the turns decided on a path"""
        out = []
        for k in o.st.facts:
            if isinstance(k, Poly) and len(k.atoms()) == 1:
                m = TURN.match(S.full(str(list(k.atoms())[0])))
                if m:
                    out.append((m.group(1).split("|"), e.possible(o.st, k)))
        return out
    loops = {id(i): (i, os) for i, os in loops_of(outs)}
    scans = {}
    for o in outs:
        rows += 1
        if o.kind != "ret":
            continue
        v = is_true(e, o)
        if v is None:
            raise Inconclusive("the answer was not recognised")
        if not v:
            if not any(m & ZER == 0 for _, m in turns(o)):
                bad("refuse", "points are called not colinear although no three of them were found to turn")
            continue
        if any(m & ZER == 0 for _, m in turns(o)):
            bad("accept", "points are called colinear although three of them turn")
            continue
        if e.possible(o.st, n - Poly.const(2)) & POS == 0:
            continue
        done = None
        for info in o.st.tags.get("loops", ()):
            if id(info) not in loops:
                continue
            _, os = loops[id(info)]
            try:
                loop, first = scans.setdefault(id(info), ring_scan(e, info, os, n))
            except Inconclusive:
                continue
            if first == "later" or any(r.kind == "done" and r.o is o for r in loop.rows):
                done = (loop, first)
        if done is None:
            if not o.st.tags.get("loops"):
                bad("unseen", "three or more points are called colinear without looking at them")
                continue
            raise Inconclusive("the walk over the points was not recognised")
        loop, first = done
        if first == "later" or first > 2:
            bad("skip", "points are called colinear although some of them were not looked at")
        for r in loop.rows:
            if r.kind != "back":
                continue
            pk = f"ps[{loop.k}]"
            t = [(x, m) for x, m in turns(r.o) if pk in x]
            eqs = [k for k, v in r.o.st.facts.items() if isinstance(k, tuple) and k[0] == "choice" and v == 1 and pk in S.full(k[1])]
            if not t and not eqs:
                # three equal names make no turn: the walk looked at the anchor itself
                if any(pk in str(k) for k in r.o.st.facts):
                    raise Inconclusive("the test of a point was not recognised")
                bad("unseen", "a point is passed over without a test")
            for x, m in t:
                if m != ZER:
                    bad("pass", "a point that turns is passed over")
                anchors = [y for y in x if y != pk]
                p, q = sorted(anchors) if len(anchors) == 2 else (None, None)
                if p is not None and r.o.st.facts.get(("choice", S.intern(f"eq[{p}|{q}]"))) != 0:
                    bad("anchor", "the two points that fix the line may coincide", {"points": anchors})
    ctx.obligation("colinearity of a list of points", paths=rows, function=key)


def run(ctx):
    part(ctx, "ear test", ear)
    part(ctx, "comparison of boundary walks", walks_equal)
    part(ctx, "equality of polygons", polygons_equal)
    part(ctx, "colinearity of a list", colinear)
