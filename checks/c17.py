import re
from polyg import *
from spec import Table, Rows
from engine import Inconclusive, Outcome
from poly import inverse
from c10 import fields
from stubs import Stubs
from spec import Catalogue

LEVEL = "other"
EXPLANATION = ("Every operator, conversion and constructor of points, vectors and transformations is evaluated to polynomial normal forms over symbolic coordinates, for dimensions one to four, "
               "and compared component by component with the coordinate-wise definition; composition and application of transformations are compared as polynomial identities.")
ASSUMPTIONS = ["coordinates obey the ring laws (field laws for division)", "dimensions above three follow the same loops"]
VIEW = R + "data::vector::VectorView"
TR = R + "transformation::Transform"
POLYC = R + "data::polygon::convex::PolygonConvex"


def kind(t):
    """point | vector | view | scalar | transform | polygon of a (possibly borrowed) type"""
    t = strip(t)
    if t is None:
        return None
    if t[0] == "adt":
        return {POINT: "point", VECTOR: "vector", VIEW: "view", TR: "transform", POLY: "polygon"}.get(t[1])
    if t[0] == "param":
        return "scalar"
    return None


def strip(t):
    while t is not None and t[0] == "ref":
        t = t[1]
    return t


def comps(e, st, v):
    """coordinates of a point, vector or view value"""
    v = e.deref(st, v)
    if isinstance(v, Adt):
        v = e.deref(st, v.f[0])
    if not isinstance(v, Arr):
        raise Inconclusive(f"coordinates of {e.key(st, v)[:60]}")
    out = []
    for x in v.f:
        x = e.deref(st, x)
        if not isinstance(x, Num):
            raise Inconclusive(f"coordinate {e.key(st, x)[:60]}")
        out.append(x.p)
    return out


def mk(e, st, name, ty, n):
    """a fresh value of a type built from points, vectors, views and scalars: (value, components)"""
    k = kind(ty)
    s = strip(ty)
    if k in ("point", "vector", "view"):
        a = Arr([Num(at(f"{name}{i}"), T) for i in range(n)])
        v = Adt(s[1], 0, [Ref(e.new_cell(st, a)) if k == "view" else a], s)
        c = [at(f"{name}{i}") for i in range(n)]
    elif k == "scalar":
        v, c = Num(at(name), T), [at(name)] * n
    else:
        raise Inconclusive(f"argument type {s}")
    if ty[0] == "ref":
        v = Ref(e.new_cell(st, v), (), ty[2])
    return v, c


def table(ctx, name, key, e, args, st, want, mut=False):
    """every path returns the given components"""
    def spec(o, x):
        if x.kind != "ret":
            return "a value"
        got = comps(e, o.st, args[0] if mut else x.val)
        if len(got) != len(want):
            return f"{len(want)} components"
        for i, (a, b) in enumerate(zip(got, want)):
            if not same_value(e, o.st, a, b):
                return f"component {i} equal to {b}"
        return None
    Table(ctx, name, key, args, st, spec, None, eng=e).run()


def same_value(e, st, a, b):
    return a == b or e.possible(st, a - b) == ZER


OPS = {("Add", "add"): lambda a, b: a + b, ("Sub", "sub"): lambda a, b: a - b, ("AddAssign", "add_assign"): lambda a, b: a + b, ("SubAssign", "sub_assign"): lambda a, b: a - b,
       ("Mul", "mul"): lambda a, b: a * b, ("MulAssign", "mul_assign"): lambda a, b: a * b, ("Div", "div"): None, ("Neg", "neg"): None}


def quotient(e, st, a, b):
    """the value number the engine gives to a / b"""
    r = e.binop(st, "Div", Num(a, T), Num(b, T), T)
    return r


def operators(ctx, dims):
    P = ctx.P
    found = 0
    for k, f in P.fns.items():
        if not (f.get("root") and f.get("primary")) or f["kind"] == "Closure" or not f.get("impl_trait"):
            continue
        t = (f["impl_trait"].split("::")[-1], f["name"])
        if not f["impl_trait"].startswith("core::ops::arith::") or t not in OPS:
            continue
        ks = [kind(x) for x in f["inputs"]]
        if ks[0] not in ("point", "vector", "view") or any(x not in ("point", "vector", "view", "scalar") for x in ks):
            continue
        found += 1
        for n in dims:
            e, st = ctx.engine(), State()
            e.N = n
            try:
                vals = [mk(e, st, "abc"[i], x, n) for i, x in enumerate(f["inputs"])]
                a = vals[0][1]
                b = vals[1][1] if len(vals) > 1 else None
                if t[0] == "Neg":
                    want = [-x for x in a]
                elif t[0] == "Div":
                    want = [x * inverse(y) for x, y in zip(a, b)]
                else:
                    want = [OPS[t](x, y) for x, y in zip(a, b)]
                table(ctx, f"{short_name(f)} [{n}]", k, e, [v for v, _ in vals], st, want, mut=t[0].endswith("Assign"))
            except Inconclusive as x:
                ctx.inconclusive(short_name(f), k, str(x))
    if found < 8:
        ctx.missing("coordinate-wise operators of points and vectors", found)


def short_name(f):
    def n(t):
        if t[0] == "ref":
            return "&" + n(t[1])
        return t[1].split("::")[-1] if t[0] == "adt" else str(t[1])
    return f"{n(f['impl_self'])} {f['name']} {n(f['inputs'][1]) if len(f['inputs']) > 1 else ''}".strip()


def conversions(ctx, dims):
    """From/Index/constructors keep the coordinates in place"""
    P = ctx.P
    for k, f in P.fns.items():
        if not (f.get("root") and f.get("primary")) or f["kind"] == "Closure":
            continue
        tr = f.get("impl_trait") or ""
        try:
            if tr == "core::convert::From" and kind(f["output"]) in ("point", "vector", "view") and kind(f["inputs"][0]) in ("point", "vector", "view"):
                o, i = strip(f["output"]), strip(f["inputs"][0])
                if o[2][0] != i[2][0]:
                    continue
                for n in dims:
                    e, st = ctx.engine(), State()
                    e.N = n
                    v, c = mk(e, st, "a", f["inputs"][0], n)
                    table(ctx, f"{short_name(f)} -> {kind(f['output'])} [{n}]", k, e, [v], st, c)
            elif tr == "core::ops::index::Index" and kind(f["impl_self"]) in ("point", "vector"):
                for n in dims:
                    for j in range(n):
                        e, st = ctx.engine(), State()
                        e.N = n
                        v, c = mk(e, st, "a", f["inputs"][0], n)

                        def spec(o, x, c=c, j=j, e=e):
                            if x.kind != "ret":
                                return "a coordinate"
                            return None if e.deref(o.st, x.val).p == c[j] else f"coordinate {j}"
                        Table(ctx, f"{short_name(f)} {j} [{n}]", k, [v, Num(Poly.const(j), USZ)], st, spec, None, eng=e).run()
        except Inconclusive as x:
            ctx.inconclusive(f["path"], k, str(x))


def dependence(ctx, name, k, e, st, args, c, unwrap):
    """component j of the result is made from coordinate j alone; unwrap takes the point or vector out of the result (None: another outcome)"""
    def spec(o, x):
        if x.kind != "ret":
            return None  # a refused conversion
        r = unwrap(o, e.deref(o.st, x.val))
        if r is None:
            return None
        a = e.deref(o.st, r.f[0]) if isinstance(r, Adt) else r
        if not isinstance(a, Arr):
            raise Inconclusive("result of a conversion")
        if len(a.f) != len(c):
            return f"{len(c)} components"
        names = [repr(x) for x in c]
        for j, z in enumerate(a.f):
            z = e.deref(o.st, z)
            txt = e.key(o.st, z)
            used = {i for i, nm in enumerate(names) if re.search(r"(?<![A-Za-z0-9_])" + nm + r"(?![0-9])", txt)}
            if used - {j}:
                return f"component {j} made from coordinate {j} (it is made from coordinate {sorted(used)[0]})"
            if not used:
                return f"component {j} made from coordinate {j}" if isinstance(z, Num) and z.p.is_const() else unknown(f"component {j}: {txt[:60]}")
        return None
    Table(ctx, name, k, args, st, spec, None, eng=e).run()


def unknown(why):
    raise Inconclusive(why)


def retyped(ctx, dims):
    """conversions to another number type keep every coordinate in its place"""
    P = ctx.P
    for k, f in P.fns.items():
        if not (f.get("root") and f.get("primary")) or f["kind"] == "Closure":
            continue
        tr = f.get("impl_trait") or ""
        ins = [kind(x) for x in f.get("inputs") or [None]]
        try:
            if tr in ("core::convert::From", "core::convert::TryFrom") and ins[0] in ("point", "vector"):
                t = strip(f["output"])
                res = t is not None and t[0] == "adt" and t[1].endswith("result::Result")
                o = strip(t[2][0]) if res else t
                if kind(o) not in ("point", "vector") or (not res and o[2][0] == strip(f["inputs"][0])[2][0]):
                    continue
                fixed = strip(f["inputs"][0])[2][1]
                for n in ([fixed[1]] if fixed[0] == "const" and isinstance(fixed[1], int) else dims):
                    e, st = ctx.engine(), State()
                    e.N = n
                    v, c = mk(e, st, "a", f["inputs"][0], n)
                    dependence(ctx, f"{short_name(f)} -> {kind(o)} [{n}]", k, e, st, [v], c,
                               (lambda o, x: (x.f[0] if x.v == 0 else None)) if res else (lambda o, x: x))
        except Inconclusive as x:
            ctx.inconclusive(f["path"], k, str(x))


def to_float(ctx, dims):
    k = ctx.one(POINT + "::to_float")
    for n in dims if k else ():
        e, st = ctx.engine(), State()
        e.N = n
        try:
            v, c = mk(e, st, "a", ctx.P.fns[k]["inputs"][0], n)
            dependence(ctx, f"to_float [{n}]", k, e, st, [v], c, lambda o, x: x)
        except Inconclusive as x:
            ctx.inconclusive("to_float", k, str(x))


def accessors(ctx):
    """the named coordinates of points of one to three dimensions, and points made from pairs"""
    P = ctx.P
    found = set()
    for j, nm in enumerate(("x_coord", "y_coord", "z_coord")):
        for k in ctx.find(name=nm, self_ty=lambda t: kind(t) == "point"):
            f = P.fns[k]
            d = strip(f["inputs"][0])[2][1]
            n = d[1] if d[0] == "const" and isinstance(d[1], int) else None
            if n is None:
                continue
            found.add((nm, n))
            e, st = ctx.engine(), State()
            e.N = n
            v, c = mk(e, st, "a", f["inputs"][0], n)

            def spec(o, x, e=e, c=c, j=j):
                if x.kind != "ret":
                    return "a coordinate"
                r = e.deref(o.st, x.val)
                return None if isinstance(r, Num) and r.p == c[j] else f"coordinate {j}"
            Table(ctx, f"{nm} [{n}]", k, [v], st, spec, None, eng=e).run()
    if ("x_coord", 2) not in found or ("y_coord", 2) not in found:
        ctx.missing("x_coord and y_coord of a point")
    for k in ctx.find(name="from", trait="core::convert::From", self_ty=lambda t: kind(t) == "point"):
        i = strip(P.fns[k]["inputs"][0])
        if i is None or i[0] != "tuple":
            continue
        e, st = ctx.engine(), State()
        n = e.N = len(i[1])
        c = [at(f"a{j}") for j in range(n)]
        table(ctx, f"point from a tuple of {n}", k, e, [Tup([Num(x, T) for x in c])], st, c)


def methods(ctx, dims):
    def m(path, name, want, build=None, one=False, dims_=None):
        k = ctx.one(path)
        if not k:
            return
        f = ctx.P.fns[k]
        for n in dims_ or dims:
            e, st = ctx.engine(), State()
            e.N = n
            try:
                if build:
                    args, c = build(e, st, n)
                else:
                    vals = [mk(e, st, "ab"[i], x, n) for i, x in enumerate(f["inputs"])]
                    args, c = [v for v, _ in vals], [c for _, c in vals]
                w = want(c, n)
                if one:
                    def spec(o, x, w=w, e=e):
                        if x.kind != "ret":
                            return "a value"
                        v = e.deref(o.st, x.val)
                        if not isinstance(v, Num):
                            raise Inconclusive(f"result {e.key(o.st, v)[:60]}")
                        return None if same_value(e, o.st, v.p, w) else f"{w}"
                    Table(ctx, f"{name} [{n}]", k, args, st, spec, None, eng=e).run()
                else:
                    table(ctx, f"{name} [{n}]", k, e, args, st, w)
            except Inconclusive as x:
                ctx.inconclusive(name, k, str(x))
    m(POINT + "::as_vec", "Point::as_vec", lambda c, n: c[0])
    m(POINT + "::cast", "Point::cast", lambda c, n: c[0])
    m(VECTOR + "::cast", "Vector::cast", lambda c, n: c[0])
    m(POINT + "::new", "Point::new", lambda c, n: c[0], lambda e, st, n: ([Arr([Num(at(f"a{i}"), T) for i in range(n)])], [[at(f"a{i}") for i in range(n)]]))
    m(POINT + "::zero", "Point::zero", lambda c, n: [ZERO] * n, lambda e, st, n: ([], []))
    m(VECTOR + "::unit_right", "Vector::unit_right", lambda c, n: [Poly.const(1), ZERO], lambda e, st, n: ([], []), dims_=(2,))
    m(POINT + "::squared_euclidean_distance", "squared_euclidean_distance", lambda c, n: sum(((a - b) * (a - b) for a, b in zip(*c)), ZERO), one=True)
    m(VECTOR + "::squared_magnitude", "squared_magnitude", lambda c, n: sum((a * a for a in c[0]), ZERO), one=True)


def mapped(ctx, dims):
    """map applies the function to every coordinate in place"""
    for path in (POINT + "::map", VECTOR + "::map"):
        k = ctx.one(path)
        if not k:
            continue
        f = ctx.P.fns[k]
        for n in dims:
            e, st = ctx.engine(), State()
            e.N = n
            try:
                v, c = mk(e, st, "a", f["inputs"][0], n)
                g = e.mkdeep(st, "f", f["inputs"][1])

                def spec(o, x, c=c, e=e, n=n):
                    if x.kind != "ret":
                        return "a value"
                    r = e.deref(o.st, x.val)
                    arr_ = e.deref(o.st, r.f[0])
                    if not isinstance(arr_, Arr):
                        raise Inconclusive("result")
                    ks = [e.key(o.st, z) for z in arr_.f]
                    for j, z in enumerate(ks):
                        if not z.strip("<>").startswith("f(") or f"a{j}" not in z or any(f"a{i}" in z for i in range(n) if i != j):
                            return f"the image of coordinate {j} as coordinate {j}"
                    return None if len(ks) == n else f"{n} components"
                Table(ctx, f"{path.split('::')[-2]}::map [{n}]", k, [v, g], st, spec, None, eng=e).run()
            except Inconclusive as x:
                ctx.inconclusive(path, k, str(x))


# ------------------------------------------------------------------ transformations
class Tr:
    """transformations built through the public interface of one engine"""

    def __init__(self, ctx, e, n):
        self.ctx, self.e, self.n = ctx, e, n
        self.k = {m: ctx.one(TR + "::" + m) for m in ("translate", "scale", "uniform_scale")}

    def impl(self, a, b):
        ks = [k for k in self.ctx.find(name="mul", trait="core::ops::arith::Mul") if [shape(t) for t in self.ctx.P.fns[k]["inputs"]] == [a, b]]
        if len(ks) != 1:
            raise Inconclusive(f"{len(ks)} implementations of {a} * {b}")
        return ks[0]

    def call(self, key, args, st):
        outs = [o for o in self.e.run(key, args, st)]
        if outs and all(o.kind == "panic" for o in outs):
            f = self.ctx.P.fns[key]
            self.ctx.violation(f"{f['path']}|always panics", self.ctx.where(f), f"{short_name(f)} panics for every argument of dimension {self.n}",
                               {"message": str(getattr(outs[0], "val", ""))[:200]})
        if any(o.kind != "ret" for o in outs) or len(outs) > 8:
            raise Inconclusive(f"outcomes of {self.ctx.P.fns[key]['path']}")
        return [(o.val, o.st) for o in outs]

    def vec(self, st, name):
        return Adt(VECTOR, 0, [Arr([Num(at(f"{name}{i}"), T) for i in range(self.n)])], ("adt", VECTOR, (T, ("const", self.n))))

    def translate(self, st, name):
        return self.call(self.k["translate"], [self.vec(st, name)], st)

    def scale(self, st, name):
        return self.call(self.k["scale"], [self.vec(st, name)], st)

    def mul(self, st, a, b):
        return self.call(self.impl(("v", "transform"), ("v", "transform")), [a, b], st)

    def affine(self, st, v, s):
        """the transformation x -> s*x + v"""
        return [r for a, s1 in self.translate(st, v) for b, s2 in self.scale(s1, s) for r in self.mul(s2, a, b)]


def shape(t):
    return ("r" if t[0] == "ref" else "v", kind(t))


def transforms(ctx, dims):
    P = ctx.P
    keys = {m: ctx.one(TR + "::" + m) for m in ("translate", "scale", "uniform_scale")}
    if not all(keys.values()):
        return
    imp = {}
    for k in ctx.find(name="mul", trait="core::ops::arith::Mul"):
        s = tuple(shape(t) for t in P.fns[k]["inputs"])
        if s[0][1] == "transform":
            imp.setdefault(s[1][1], []).append((s, k))
    for what in ("transform", "point", "vector", "polygon"):
        if not imp.get(what):
            ctx.missing(f"Transform * {what}")
            return
    for n in dims:
        e, st = ctx.engine(), State()
        e.N, e.unroll = n, 30
        t = Tr(ctx, e, n)
        try:
            ap = [x for x in imp["vector"]]
            vn = lambda nm: [at(f"{nm}{i}") for i in range(n)]
            cases = []
            aff = lambda v, s, x: [p * q + r for p, q, r in zip(x, vn(s), vn(v))]
            for m, s1 in t.translate(st.copy(), "v"):
                cases.append(("translate(v)", m, s1, lambda x: [p + q for p, q in zip(x, vn("v"))]))
            for m, s1 in t.scale(st.copy(), "s"):
                cases.append(("scale(s)", m, s1, lambda x: [p * q for p, q in zip(x, vn("s"))]))
            for m, s1 in t.call(keys["uniform_scale"], [Num(at("u"), T)], st.copy()):
                cases.append(("uniform_scale(u)", m, s1, lambda x: [p * at("u") for p in x]))
            for m, s1 in t.affine(st.copy(), "v", "s"):
                cases.append(("translate(v)*scale(s)", m, s1, lambda x: aff("v", "s", x)))
            # every way of composing two general transformations
            for sh, k in imp["transform"]:
                for g, s1 in t.affine(st.copy(), "v", "s"):
                    for h, s2 in t.affine(s1, "w", "r"):
                        args = [Ref(e.new_cell(s2, z)) if q[0] == "r" else z for q, z in zip(sh, (g, h))]
                        for c, s3 in t.call(k, args, s2):
                            cases.append((f"composition ({P.fns[k]['path'].split(' as ')[0].strip('<')})", c, s3, lambda x: aff("v", "s", aff("w", "r", x))))
            for what in ("vector", "point"):
                for sh, k in imp[what]:
                    for nm, m, s1, f in cases:
                        s2 = s1.copy()
                        v, c = mk(e, s2, "p", P.fns[k]["inputs"][1], n)
                        mm = Ref(e.new_cell(s2, m)) if sh[0][0] == "r" else m
                        table(ctx, f"{nm} applied to {'&' if sh[1][0] == 'r' else ''}{what} ({'&' if sh[0][0] == 'r' else ''}) [{n}]", k, e, [mm, v], s2, f(c))
        except Inconclusive as x:
            ctx.inconclusive("transformations", keys["translate"], str(x))
    polygon_images(ctx, imp["polygon"])


def polygon_images(ctx, impls):
    for sh, k in impls:
        e, st0 = ctx.engine(), State()
        e.unroll = 20
        t = Tr(ctx, e, 2)
        try:
            for g, st in t.affine(st0, "v", "s"):
                polygon_image(ctx, e, st, sh, k, g)
        except Inconclusive as x:
            ctx.inconclusive("polygon image", k, str(x))


def polygon_image(ctx, e, st, sh, k, g):
    p = Poly_(e, st)
    pv = p.val(st)
    src = fields(e, st, p, pv)
    n = e.seq_len(st, src[0])
    q = at("q", USZ)
    e.add_sign(st, q, POS | ZER)
    e.add_sign(st, n - q, POS)
    xy_ = coords(e, st, e.seq_read(st, src[0], q))
    want = [xy_[i] * at(f"s{i}") + at(f"v{i}") for i in (0, 1)]
    args = [Ref(e.new_cell(st, z)) if s[0] == "r" else z for s, z in zip(sh, (g, pv))]

    def spec(o, x):
        if x.kind != "ret":
            return None
        r = fields(e, o.st, p, x.val)
        for i, what in ((1, "ring numbers"), (2, "positions"), (3, "rings")):
            if e.key(o.st, r[i]) != e.key(o.st, src[i]):
                return f"unchanged {what}"
        if o.sign(e.seq_len(o.st, r[0]) - n) != 0:
            return "as many points as before"
        c = coords(e, o.st, read_at(o, e, r[0], q))
        for j in (0, 1):
            if any(a.startswith("phi") for a in c[j].atoms()):
                raise Inconclusive("the q-th output point was not summarised")
            if not same_value(e, o.st, c[j], want[j]):
                return f"the image of the q-th point there (coordinate {j})"
        return None
    Table(ctx, f"polygon image ({short_name(ctx.P.fns[k])})", k, args, st, spec, None, eng=e).run()


def normalized(ctx):
    """the normalised polygon: every point moved by minus the centroid, then divided by the larger side of the box"""
    k = ctx.one(POLY + "::normalize")
    if not k:
        return
    try:
        e, st = ctx.engine(), State()
        e.unroll = 20
        S = Stubs(ctx, e)
        S.on(lambda eng, s, a, c, dty, fr, sp: [(Tup([point("lo"), point("hi")]), s)], path=POLY + "::bounding_box")
        S.on(lambda eng, s, a, c, dty, fr, sp: [(point("c"), s)], path=POLY + "::centroid")
        p = Poly_(e, st)
        pv = p.val(st)
        src = fields(e, st, p, pv)
        n = e.seq_len(st, src[0])
        q = at("q", USZ)
        e.add_sign(st, q, POS | ZER)
        e.add_sign(st, n - q, POS)
        v = coords(e, st, e.seq_read(st, src[0], q))
        lo, hi, c = xy("lo"), xy("hi"), xy("c")
        side = [hi[i] - lo[i] for i in (0, 1)]
        for x in side:
            e.add_sign(st, x, POS | ZER)

        def spec(o, x):
            if x.kind != "ret":
                return None
            r = fields(e, o.st, p, x.val)
            for i, what in ((1, "ring numbers"), (2, "positions"), (3, "rings")):
                if e.key(o.st, r[i]) != e.key(o.st, src[i]):
                    return f"unchanged {what}"
            big = side[0] if o.sign(side[0] - side[1]) > 0 else side[1]
            got = coords(e, o.st, read_at(o, e, r[0], q))
            for j in (0, 1):
                if any(a.startswith("phi") for a in got[j].atoms()):
                    raise Inconclusive("the q-th output point was not summarised")
                want = (v[j] - c[j]) * inverse(big)
                if not same_value(e, o.st, got[j], want):
                    return f"the q-th point moved by minus the centroid and divided by the larger side there (coordinate {j})"
            return None
        nm = [repr(z) for z in (*lo, *hi)]
        Table(ctx, "normalized polygon", k, [p.ref], st, spec, Catalogue(nm, 0, 2).ignore(r"."), nm, eng=e).run()
    except Inconclusive as x:
        ctx.inconclusive("normalized polygon", k, str(x))


def total(ctx, dims):
    """summing vectors adds component-wise, starting from zero"""
    for k in ctx.find(name="sum", trait="core::iter::traits::accum::Sum", self_ty=lambda t: kind(t) == "vector"):
        for n in dims:
            for m in (0, 1, 3):
                e, st = ctx.engine(), State()
                e.N, e.unroll = n, 8
                vs = Arr([Adt(VECTOR, 0, [Arr([Num(at(f"{'abc'[j]}{i}"), T) for i in range(n)])], ("adt", VECTOR, (T, ("const", n)))) for j in range(m)], "vec")
                it = Adt("prelude::VIter", 0, [vs, Num(ZERO, USZ), Num(Poly.const(m), USZ)])
                try:
                    table(ctx, f"sum of {m} vectors [{n}]", k, e, [it], st, [sum((at(f"{'abc'[j]}{i}") for j in range(m)), ZERO) for i in range(n)])
                except Inconclusive as x:
                    ctx.inconclusive("sum of vectors", k, str(x))


def run(ctx):
    dims = (1, 2, 3, 4)
    operators(ctx, dims)
    conversions(ctx, dims)
    methods(ctx, dims)
    mapped(ctx, dims)
    total(ctx, dims)
    retyped(ctx, dims)
    to_float(ctx, dims)
    accessors(ctx)
    transforms(ctx, dims)
    normalized(ctx)
