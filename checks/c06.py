from geo import *
from spec import Table, strip
from engine import State
from ctx import nogen

LEVEL = "other"
EXPLANATION = ("Every path partition of segment containment, segment/segment intersection and of each public conversion/wrapper is compared, over "
               "all orientation, lexicographic-order and end-point-openness outcomes, with the point-set specification of half-open segments.")
ASSUMPTIONS = ["scalar predicates mean what C01 decides", "Point's order is the lexicographic total order (C19)",
               "a segment value satisfies min <= max, which every public constructor establishes (decided here)",
               "candidate mismatches are reported when inhabited by the configuration catalogue"]


def overlap_parts(o, eng, s, t):
    """the colinear intersection: (lo name, lo incl, hi name, hi incl, nonempty)"""
    c = o.sign(s.ra - t.ra)
    if c > 0:
        lo, li = s.a, s.incl(o, 0)
    elif c < 0:
        lo, li = t.a, t.incl(o, 0)
    else:
        lo, li = s.a, s.incl(o, 0) and t.incl(o, 0)
    c = o.sign(s.rb - t.rb)
    if c < 0:
        hi, hi_i = s.b, s.incl(o, 1)
    elif c > 0:
        hi, hi_i = t.b, t.incl(o, 1)
    else:
        hi, hi_i = s.b, s.incl(o, 1) and t.incl(o, 1)
    d = o.sign(rk(eng, o.st, hi) - rk(eng, o.st, lo))
    return lo, li, hi, hi_i, d > 0 or (d == 0 and li and hi_i)


def intersect_spec(eng, s, t):
    def f(o, x):
        if x.kind != "ret":
            return "a result, not a panic"
        a1, a2, b1, b2 = xy(s.a), xy(s.b), xy(t.a), xy(t.b)
        o1, o2, o3, o4 = o.sign(det(a1, a2, b1)), o.sign(det(a1, a2, b2)), o.sign(det(b1, b2, a1)), o.sign(det(b1, b2, a2))
        want, parts = None, None
        if o1 == o2 == o3 == o4 == 0:
            parts = overlap_parts(o, eng, s, t)
            want = "Overlap" if parts[4] else None
        else:
            if o1 * o2 < 0 and o3 * o4 < 0:
                want = "Crossing"
            elif (t.incl(o, 0) and in_segment(o, eng, s, t.a)) or (t.incl(o, 1) and in_segment(o, eng, s, t.b)) or \
                    (s.incl(o, 0) and in_segment(o, eng, t, s.a)) or (s.incl(o, 1) and in_segment(o, eng, t, s.b)):
                want = "Crossing"
        got = o.vname(x.val)
        if want is None:
            return None if got == "None" else "None (the segments share no point)"
        if got == "None":
            return f"Some({want})"
        inner = o.field(x.val, 0, 1)
        g = o.vname(inner)
        if g != want:
            return f"Some({want})"
        if want == "Overlap":
            view = eng.deref(o.st, o.field(inner, 0, 1))
            lo, li, hi, hi_i, _ = parts
            for i, (n, inc, side) in enumerate(((lo, li, "min"), (hi, hi_i, "max"))):
                ep = eng.deref(o.st, o.field(view, i))
                if (o.vname(ep) == "Inclusive") != inc:
                    return f"Overlap with {'an inclusive' if inc else 'an exclusive'} {side} end point"
                var = o.variant(ep)
                p = eng.deref(o.st, o.field(ep, 0, var))
                if eng.key(o.st, p) != eng.key(o.st, point(n)):
                    # equal points are interchangeable
                    if o.sign(contracts.rank(eng, o.st, p) - rk(eng, o.st, n)) != 0:
                        return f"Overlap with {side} point {n}"
        return None
    return f


def run(ctx):
    P = ctx.P
    cat4 = seg_catalogue("abcd")
    cat3 = seg_catalogue("abp")
    n4, n3 = [x + c for x in "abcd" for c in "xy"], [x + c for x in "abp" for c in "xy"]

    def engine():
        e = ctx.engine()
        if contracts.point_order(e) < 3:
            ctx.missing("Ord/PartialOrd/PartialEq of Point")
        return e

    def tab(name, key, e, st, args, spec, cat, names):
        if key is not None:
            Table(ctx, name, key, args, st, spec, cat, names, eng=e).run()

    # --- constructors establish min <= max and keep each end point's openness
    for path, by_ref in ((LSV, True), (LS, False)):
        key = ctx.one(path + "::new")
        if key is None:
            continue
        e, st = engine(), State()
        s = Seg(e, st, "a", "b", "s", by_ref, path, premise=False)

        def newspec(o, x, e=e, s=s):
            if x.kind != "ret":
                return "a segment"
            v = e.deref(o.st, x.val)
            k0, k1 = e.key(o.st, o.field(v, 0)), e.key(o.st, o.field(v, 1))
            ka, kb = e.key(o.st, s.ea), e.key(o.st, s.eb)
            r = o.sign(s.ra - s.rb)
            if r < 0 and (k0, k1) != (ka, kb):
                return "min = first argument, max = second (first < second)"
            if r > 0 and (k0, k1) != (kb, ka):
                return "min = second argument, max = first (second < first)"
            if sorted((k0, k1)) != sorted((ka, kb)):
                return "both end points kept"
            return None
        tab(f"{path.split('::')[-1]}::new orders its end points", key, e, st, [s.ea, s.eb], newspec, seg_catalogue("ab"), ["ax", "ay", "bx", "by"])

    # --- containment
    for path, by_ref in ((LSV, True), (LS, False)):
        key = ctx.one(path + "::contains")
        if key is None:
            continue
        e, st = engine(), State()
        s = Seg(e, st, "a", "b", "s", by_ref, path)
        tab(f"{path.split('::')[-1]}::contains", key, e, st, [ref(e, st, s.val), ref(e, st, point("p"))],
            lambda o, x, e=e, s=s: expect_bool(o, x, in_segment(o, e, s, "p")), cat3, n3)

    # directed edges: from (included) to (excluded)
    DE = R + "data::directed_edge::DirectedEdge"
    key = ctx.one(DE + "::contains")
    if key:
        e, st = engine(), State()
        v = Adt(DE, 0, [ref(e, st, point("a")), ref(e, st, point("b"))])
        tab("DirectedEdge::contains", key, e, st, [v, ref(e, st, point("p"))],
            lambda o, x, e=e: expect_bool(o, x, in_directed(o, e, "a", "b", "p")), cat3, n3)

    # --- intersection of views, both argument orders
    ks = [k for k in ctx.find(name="intersect", trait=R + "intersection::Intersects",
                              self_ty=lambda t: t and t[0] == "adt" and t[1] == LSV)]
    if len(ks) != 1:
        ctx.missing("Intersects for LineSegmentView", len(ks))
    isect_key = ks[0] if ks else None
    if isect_key:
        e, st = engine(), State()
        s, t = Seg(e, st, "a", "b", "s"), Seg(e, st, "c", "d", "t")
        tab("LineSegmentView::intersect is set intersection", isect_key, e, st, [s.val, t.val], intersect_spec(e, s, t), cat4, n4)

    # --- conversions and wrappers: which end point is open is part of the type
    conversions(ctx, engine, isect_key)


def in_directed(o, e, a, b, p):
    if o.sign(det(xy(a), xy(b), xy(p))) != 0:
        return False
    ra, rb, r = rk(e, o.st, a), rk(e, o.st, b), rk(e, o.st, p)
    d = o.sign(rb - ra)
    if d == 0:
        return False
    x, y = o.sign(r - ra), o.sign(r - rb)
    if d < 0:
        x, y = -x, -y
    return x >= 0 and y < 0


def conversions(ctx, engine, isect_key):
    """From<...> for LineSegment/LineSegmentView: start inclusive; end exclusive for half-open sources"""
    P = ctx.P
    RANGE, RINC = "core::ops::range::Range", "core::ops::range::RangeInclusive"
    DE, DE_ = R + "data::directed_edge::DirectedEdge", R + "data::directed_edge::DirectedEdge_"
    n = 0

    def source(e, st, t):
        """(value, end inclusive) for a source type with start point a and end point b"""
        byref = False
        while t[0] == "ref":
            byref, t = True, t[1]
        inner = None
        if t[0] != "adt":
            return None
        if t[1] in (RANGE, RINC):
            it = t[2][0]
            if it[0] == "ref":
                a, b = ref(e, st, point("a")), ref(e, st, point("b"))
            elif it[0] == "tuple":
                a, b = (Tup([Num(q, T) for q in xy(m)]) for m in "ab")
            else:
                a, b = point("a"), point("b")
            f = [a, b] + ([False] if t[1] == RINC else [])
            inner = Adt(t[1], 0, f, t)
            inc = t[1] == RINC
        elif t[1] in (DE, DE_):
            a, b = (point("a"), point("b")) if t[1] == DE_ else (ref(e, st, point("a")), ref(e, st, point("b")))
            names = [f["n"] for f in P.adts[t[1]]["variants"][0]["f"]]
            if sorted(names) != ["dst", "src"]:
                return None
            inner = Adt(t[1], 0, [a if nm == "src" else b for nm in names], t)
            inc = False
        else:
            return None
        return (ref(e, st, inner) if byref else inner), inc

    cat = seg_catalogue("ab")
    cov = []
    for k in ctx.find(name="from", trait="core::convert::From", self_ty=lambda t: t and t[0] == "adt" and t[1] in (LS, LSV)):
        f = P.fns[k]
        src = f["impl_trait_args"][1]
        e, st = engine(), State()
        if "RangeInclusive" in repr(src):
            add_range_inclusive(e)
        r = source(e, st, src)
        if r is None:
            continue
        val, inc = r

        def spec(o, x, e=e, inc=inc):
            if x.kind != "ret":
                return "a segment"
            v = e.deref(o.st, x.val)
            got = []
            for i in (0, 1):
                ep = e.deref(o.st, o.field(v, i))
                got.append((e.key(o.st, e.deref(o.st, o.field(ep, 0, o.variant(ep)))), o.vname(ep)))
            A = (e.key(o.st, point("a")), "Inclusive")
            B = (e.key(o.st, point("b")), "Inclusive" if inc else "Exclusive")
            s = o.sign(rk(e, o.st, "a") - rk(e, o.st, "b"))
            want = [A, B] if s < 0 else [B, A]
            if got == want or (s == 0 and got == [A, B]):
                return None
            return f"start inclusive, end {'inclusive' if inc else 'exclusive'}, ordered"
        Table(ctx, f"conversion {tyname(src)} -> {tyname(f['impl_self'])}", k, [val], st, spec, cat, ["ax", "ay", "bx", "by"], eng=e).run()
        n += 1
    if n < 7:
        ctx.missing(f"conversions into segments (found {n} of at least 7)", n)

    # wrappers of intersect on other segment-like types: they reach the view intersection with both
    # arguments converted, in order
    m = 0
    for k in ctx.find(name="intersect", trait=R + "intersection::Intersects"):
        if k == isect_key:
            continue
        f = P.fns[k]
        st_ = f["impl_self"]
        targ = f["impl_trait_args"][1] if len(f["impl_trait_args"]) > 1 else st_
        if strip(st_)[1] in (R + "data::line::LineSoS", R + "data::line::HalfLineSoS"):
            continue
        e, st = engine(), State()
        add_range_inclusive(e)
        if strip(st_)[1] == LS:
            s, t = Seg(e, st, "a", "b", "s", False, LS), Seg(e, st, "c", "d", "t", False, LS)
            args = [ref(e, st, s.val), ref(e, st, t.val)]
        else:
            r1 = source(e, st, st_)
            if r1 is None:
                continue
            r2v, inc = source(e, st, targ)
            # rename a,b -> c,d in the second argument
            st2 = st
            r2v = rename(e, st, r2v, {"a": "c", "b": "d"})
            args = [r1[0], r2v]
        m += 1
        seen = []

        def contract(eng, s_, a_, c, dty, fr, sp):
            seen.append((s_, [eng.deref(s_, v) for v in a_]))
            return [(Opq("isect-result", dty), s_)]
        e.fn_overrides[isect_key] = contract

        def spec(o, x, e=e):
            if x.kind != "ret":
                return "a result"
            return None if e.key(o.st, e.deref(o.st, x.val)) == "<isect-result>" else "the intersection of the two converted segments"
        Table(ctx, f"wrapper intersect on {tyname(st_)}", k, args, st, spec, None, eng=e).run()
        bad = None
        for s_, a_ in seen:
            ks = [e.key(s_, v) for v in a_]
            for kk, (p, q) in zip(ks, (("a", "b"), ("c", "d"))):
                kk2 = kk.replace("<s.min>", f"{p}x").replace("<s.max>", f"{q}x").replace("<t.min>", f"{p}x").replace("<t.max>", f"{q}x")
                if f"{p}x" not in kk2 or f"{q}x" not in kk2:
                    bad = kk
        if bad or not seen:
            ctx.violation(f"wrapper-args|{k}", ctx.where(f), f"{f['path']} does not intersect its two arguments (converted in order): {bad}", {})
    if m < 4:
        ctx.missing(f"intersect wrappers (found {m} of at least 4)", m)


def rename(e, st, v, mp):
    if isinstance(v, Ref):
        return Ref(e.new_cell(st, rename(e, st, e.load(st, v.c, v.pr), mp)), (), v.m)
    if isinstance(v, Adt):
        return Adt(v.path, v.v, [rename(e, st, x, mp) for x in v.f], v.ty)
    if isinstance(v, Tup):
        return Tup([rename(e, st, x, mp) for x in v.f])
    if isinstance(v, Arr):
        return Arr([rename(e, st, x, mp) for x in v.f], v.kind)
    if isinstance(v, Num):
        return Num(v.p.subst({a: Poly.atom(mp[a[0]] + a[1:], T) for a in v.p.atoms() if a[0] in mp}), v.ty)
    return v


def add_range_inclusive(e):
    RI = "core::ops::range::RangeInclusive::<Idx>"

    def start(eng, st, args, c, dty, fr, sp):
        v = eng.deref(st, args[0])
        return [(eng.project(st, v, (".", 0)) if not isinstance(dty, tuple) or dty[0] != "ref" else eref(eng, st, args[0], 0), st)]

    def eref(eng, st, a, i):
        while isinstance(eng.load(st, a.c, a.pr), Ref):
            a = eng.load(st, a.c, a.pr)
        return Ref(a.c, a.pr + ((".", i),))
    for nm, i in (("start", 0), ("end", 1)):
        e.models.setdefault(f"{RI}::{nm}", lambda eng, st, args, c, dty, fr, sp, i=i: [(eref(eng, st, args[0], i), st)])
    e.models.setdefault(f"{RI}::into_inner", lambda eng, st, args, c, dty, fr, sp: [(Tup(eng.deref(st, args[0]).f[:2]), st)])


def tyname(t):
    pre = ""
    while t[0] == "ref":
        pre, t = pre + "&", t[1]
    return pre + (t[1].split("::")[-1] + ("<" + ",".join(tyname(x) for x in t[2] if x[0] not in ("const",)) + ">" if t[2] else "") if t[0] == "adt" else t[0] if t[0] != "param" else t[1])
