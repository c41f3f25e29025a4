import re
from geo import *
from spec import Table, Catalogue, facts_str
from engine import State, Inconclusive
from stubs import Stubs
from polyg import coords

LEVEL = "other"
EXPLANATION = ("Decision tables of every public triangle operation are extracted from MIR path partitions and compared with the point-set "
               "specification of a counter-clockwise triangle; areas and boxes are compared as polynomial normal forms.")
ASSUMPTIONS = ["scalar predicates mean what C01 decides", "conversions T: Into<F> are value preserving (the caller's choice of F)",
               "candidate mismatches are reported when inhabited by the configuration catalogue"]

TRI, TRV = R + "data::triangle::Triangle", R + "data::triangle::TriangleView"
LOCN = R + "data::PointLocation"
NAMES = [x + c for x in "abcp" for c in "xy"]


def tri(e, s, path, names="abc"):
    pts = [point(n) if path == TRI else ref(e, s, point(n)) for n in names]
    return Adt(path, 0, [Arr(pts)], ("adt", path, (T,)))


def corner_names(o, v):
    """names of the three corners of a triangle value, resolved by coordinates"""
    eng = o.eng
    a = eng.deref(o.st, o.field(v, 0))
    out = []
    by = {eng.key(o.st, point(n)): n for n in "abc"}
    for x in a.f:
        out.append(by.get(eng.key(o.st, eng.deref(o.st, x))))
    return out


def run(ctx):
    cat3 = Catalogue([x + c for x in "abc" for c in "xy"], 0, 3)
    cat4 = Catalogue(NAMES, 0, 3)
    a, b, c, p = (xy(n) for n in "abcp")
    D = det(a, b, c)

    def t(name, path, mk, spec, cat, prem=None, key=None):
        key = key or ctx.one(path)
        if key is None:
            return
        e, st = ctx.engine(), State()
        args = mk(e, st)
        if prem is not None:
            e.add_sign(st, *prem)
        Table(ctx, name, key, args, st, spec, cat, NAMES, eng=e).run()

    def valid(o, x):
        if x.kind != "ret":
            return "Ok or Err, not a panic"
        want = "Ok" if o.sign(D) > 0 else "Err"
        got = o.vname(x.val)
        if got != want:
            return want
        return None

    def new(o, x):
        r = valid(o, x)
        if r is None and o.vname(x.val) == "Ok":
            if corner_names(o, o.field(x.val, 0, 0)) != ["a", "b", "c"]:
                return "the given corners in the given order"
        return r

    def new_ccw(o, x):
        s = o.sign(D)
        if s == 0:
            return None if x.kind == "panic" else "a panic (colinear corners cannot be oriented)"
        if x.kind != "ret":
            return "a triangle, not a panic"
        n = corner_names(o, o.eng.deref(o.st, x.val))
        if sorted(map(str, n)) != ["a", "b", "c"]:
            return "a permutation of the three given corners"
        even = n in (["a", "b", "c"], ["b", "c", "a"], ["c", "a", "b"])
        return None if even == (s > 0) else "a counter-clockwise corner order"

    def locate(o, x):
        if x.kind != "ret":
            return "a location, not a panic"
        s = [o.sign(det(a, b, p)), o.sign(det(b, c, p)), o.sign(det(c, a, p))]
        return expect_enum(o, x, "Outside" if min(s) < 0 else "OnBoundary" if 0 in s else "Inside")

    for path in (TRI, TRV):
        n = path.split("::")[-1]
        arr3 = (lambda e, s: [Arr([point(q) for q in "abc"])]) if path == TRI else (lambda e, s: [Arr([ref(e, s, point(q)) for q in "abc"])])
        self_ = lambda e, s: [ref(e, s, tri(e, s, path))]
        t(f"{n}::new accepts exactly counter-clockwise corners", path + "::new", arr3, new, cat3)
        t(f"{n}::new_ccw", path + "::new_ccw", arr3, new_ccw, cat3)
        t(f"{n}::validate", path + "::validate", self_, valid, cat3)
        t(f"{n}::locate", path + "::locate", lambda e, s: [ref(e, s, tri(e, s, path)), ref(e, s, point("p"))], locate, cat4, (D, POS))
    t("TriangleView::orientation", TRV + "::orientation", lambda e, s: [ref(e, s, tri(e, s, TRV))],
      lambda o, x: expect_enum(o, x, orient_name(o.sign(D))), cat3)
    t("Triangle::view keeps the corners", TRI + "::view", lambda e, s: [ref(e, s, tri(e, s, TRI))],
      lambda o, x: None if x.kind == "ret" and corner_names(o, o.eng.deref(o.st, x.val)) == ["a", "b", "c"] else "the same corners in order", cat3)

    def area(k):
        def f(o, x):
            if x.kind != "ret":
                return "a value, not a panic"
            v = o.eng.deref(o.st, x.val)
            if not isinstance(v, Num):
                return None
            diff = v.p * Poly.const(k) - D
            ok = not diff.t
            return None if ok else f"{'half ' if k == 2 else ''}the signed parallelogram area of the corners"
        return f
    t("TriangleView::signed_area_2x", TRV + "::signed_area_2x", lambda e, s: [ref(e, s, tri(e, s, TRV))], area(1), None)
    t("TriangleView::signed_area", TRV + "::signed_area", lambda e, s: [ref(e, s, tri(e, s, TRV))], area(2), None)

    def bbox(o, x):
        if x.kind != "ret":
            return "a box, not a panic"
        e = o.eng
        v = e.deref(o.st, x.val)
        for i, sgn in ((0, -1), (1, 1)):
            q = e.deref(o.st, v.f[i])
            ar = e.deref(o.st, o.field(q, 0))
            for d in (0, 1):
                got = e.deref(o.st, ar.f[d])
                if not isinstance(got, Num):
                    return None
                cs = [a[d], b[d], c[d]]
                if not any(not (got.p - w).t for w in cs):
                    return "each bound is a coordinate of a corner"
                for w in cs:
                    if o.sign(got.p - w) * sgn < 0:
                        return f"the {'lower' if sgn < 0 else 'upper'} bound of axis {d} bounds every corner"
        return None
    t("TriangleView::bounding_box", TRV + "::bounding_box", lambda e, s: [ref(e, s, tri(e, s, TRV))], bbox, cat3)
    for path in (TRI, TRV):
        for k in ctx.find(path + "::rejection_sampling"):
            try:
                sampling(ctx, k, path)
            except Inconclusive as x:
                ctx.inconclusive("random point of a triangle", k, str(x))


def sampling(ctx, key, path):
    """a random point is only handed out after it was located and found not to be outside"""
    e, st = ctx.engine(), State()
    S = Stubs(ctx, e)
    n = [v["n"] for v in ctx.P.adts[LOCN]["variants"]]

    def loc(eng, s, a, c, dty, fr, sp):
        nm = "loc[" + S.intern(eng.key(s, eng.deref(s, a[1]))) + "]"
        out = []
        for i, x in S.choice(s, nm, 3):
            x = x.copy()
            x.tags = dict(x.tags, located=x.tags.get("located", ()) + ((eng.key(x, eng.deref(x, a[1])), n[i]),))
            out.append((Adt(LOCN, i, [], dty), x))
        return out
    for p in (TRI, TRV):
        if ctx.find(p + "::locate"):
            S.on(loc, path=p + "::locate")
    def box(eng, s, a, c, dty, fr, sp):
        return [(Tup([point("lo"), point("hi")]), s)]
    for p in (TRI, TRV):
        if ctx.find(p + "::bounding_box"):
            S.on(box, path=p + "::bounding_box")
    rng, kinds = {}, {}

    def draw(eng, s, a, c, dty, fr, sp):
        nm = f"draw{len(rng)}"
        rng[nm] = [x.p if isinstance(x, Num) else None for x in map(lambda x: eng.deref(s, x), getattr(eng.deref(s, a[1]), "f", ()))]
        kinds[nm] = getattr(eng.deref(s, a[1]), "path", "") or ""
        return [(Num(Poly.atom(nm), T), s)]
    e.models["rand::rng::Rng::gen_range"] = draw
    self_ = ref(e, st, tri(e, st, path))
    outs = e.run(key, [self_, e.mkdeep(st, "rng", ctx.P.body(key)["locals"][2])], st)
    rows = 0
    for o in outs:
        if o.kind != "ret":
            continue
        rows += 1
        for j, c in enumerate(coords(e, o.st, o.val)):
            ends = rng.get(repr(c))
            box_ = [xy(nm)[j] for nm in ("lo", "hi")]
            if ends and ends[:2] != box_ and all(x is not None and set(x.atoms()) <= {"lox", "loy", "hix", "hiy"} for x in ends[:2]):
                ctx.violation(f"rejection_sampling|range {j}", ctx.where(ctx.P.fns[key]), f"the random {'xy'[j]} coordinate is not drawn from the {'xy'[j]} range of the triangle's box",
                              {"range": [repr(x) for x in ends[:2]]})
            if ends and ends[:2] == box_ and kinds[repr(c)].endswith("ops::range::Range"):
                ctx.violation(f"rejection_sampling|end {j}", ctx.where(ctx.P.fns[key]), f"the far {'xy'[j]} end of the triangle's box is never drawn, so points on it are never handed out", {})
        got = e.key(o.st, e.deref(o.st, o.val))
        ans = [w for p, w in o.st.tags.get("located", ()) if p == got]
        if not ans:
            seen = o.st.tags.get("located", ())
            known = re.compile(r"(draw\d+|lo[xy]|hi[xy]|Point#0|[\[\](),.])+")
            if seen and all(known.fullmatch(x) for x in (got, *(p for p, _ in seen))):
                ctx.violation("rejection_sampling|other", ctx.where(ctx.P.fns[key]), "a random point of a triangle is handed out although another point was the one found to be inside", {"point": got[:200], "located": seen[-1][0][:200]})
                continue
            if not seen and known.fullmatch(got) and not any("draw" in (repr(f) if isinstance(f, Poly) else str(f)) for f in o.st.facts):
                ctx.violation("rejection_sampling|untested", ctx.where(ctx.P.fns[key]), "a random point of a triangle is handed out on a path on which nothing about it was tested", {"point": got[:200], "when": [str(x) for x in facts_str(o.st)][:6]})
                continue
            raise Inconclusive("the returned point was not the one located")
        if ans[-1] == "Outside":
            ctx.violation("rejection_sampling|outside", ctx.where(ctx.P.fns[key]), "a random point of a triangle is handed out although it lies outside", {"point": got[:200]})
    if not rows:
        raise Inconclusive("no path returns a point")
    ctx.obligation("a random point is handed out only when it was found inside or on the boundary", rows=rows, function=key)
