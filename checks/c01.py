import math
from fractions import Fraction
from geo import *
from spec import Table, Catalogue, strip
from engine import State
from strict import Strict
import numpy as np
from poly import DEFS

LEVEL = "other"
FEATURES = ("rug",)
EXPLANATION = ("Each scalar implementation of the orientation primitives is interpreted over exact polynomials with an interval for every fixed-width "
               "operation; every path partition's verdict is compared with the sign of the exact determinant, wrapped and overflowing cases included.")
ASSUMPTIONS = ["geometry_predicates::orient2d returns the sign of the exact determinant (documented contract)", "num/rug integer and rational arithmetic is exact",
               "float inputs are finite; float_to_rational is exact", "isize has 64 bits"]
PS = R + "PolygonScalar"


def tname(t):
    if t[0] in ("int", "float"):
        return t[1]
    return t[1].split("::")[-1] + ("<" + ",".join(tname(x) for x in t[2] if isinstance(x, tuple) and x[0] != "const") + ">" if t[2] else "")


class Values(dict):
    """coordinate columns; a wrapped number is computed from the columns it is made of"""

    def __contains__(self, a):
        return dict.__contains__(self, a) or a in DEFS and all(x in self for p in DEFS[a][0] for x in p.atoms())

    def __missing__(self, a):
        ps, f = DEFS[a]
        n = len(next(iter(self.values())))
        cols = []
        for p in ps:
            r = np.zeros(n, dtype=object)
            for m, c in p.t:
                v = int(c)
                for x in m:
                    v = v * self[x].astype(object)
                r = r + v
            cols.append(r)
        self[a] = f(*cols)
        return self[a]


class BigCat(Catalogue):
    """exact-integer catalogue with boundary values of a fixed-width type"""

    def __init__(self, names, ty, n=30000, seed=1):
        rng = np.random.default_rng(seed)
        self.val, self.cache = Values(), {}
        # coordinates of dense types are taken in units of 1/16, so that small values occur as well
        self.unit = 1 if ty[0] == "int" or ty[0] == "adt" and ty[1].endswith("Integer") or ty[0] == "adt" and ty[1].endswith("BigInt") else 16
        if ty[0] == "int":
            from engine import int_range
            lo, hi = int_range(ty)
        else:
            lo, hi = -(1 << 52), 1 << 52
        pool = [lo, lo + 1, lo + 2, -2, -1, 0, 1, 2, 3, hi - 1, hi, hi // 2, lo // 2, hi // 2 + 1]
        small = list(range(-3, 4))
        wide = hi >= 1 << 20
        for nme in names:
            a = [pool[i] for i in rng.integers(0, len(pool), n)]
            b = [small[i] for i in rng.integers(0, len(small), n)]
            c = [int(x) for x in rng.integers(max(lo, -(1 << 62)), min(hi, (1 << 62)), n)]
            col = a + b + c
            self.val[nme] = np.array(col, dtype=object if wide else np.int64)
        self.n = 3 * n
        self.exhaustive = False

    def signs(self, p, val, n):
        r = np.zeros(n, dtype=object)
        deg = max((len(m) for m, _ in p.t), default=0)
        den = math.lcm(*[Fraction(c).denominator for _, c in p.t]) if p.t else 1
        for m, c in p.t:
            v = np.full(n, int(Fraction(c) * den) * self.unit ** (deg - len(m)), dtype=object)
            for a in m:
                v = v * val(a)
            r = r + v
        return np.where(r < 0, NEG, np.where(r > 0, POS, ZER)).astype(np.int8)


def arr_(n, ty):
    from engine import TRANSPARENT
    return Arr([wrap(Num(Poly.atom(n + c + "@" + tname(ty), base(ty)), base(ty)), ty) for c in "xy"])


def base(ty):
    return ty


def wrap(v, ty):
    return v


def pts(names, ty):
    return {n: tuple(Poly.atom(n + c + "@" + tname(ty), ty) for c in "xy") for n in names}


def hinted(o, A, B, C, D):
    """sign of A*B - C*D with the factors' signs decided first"""
    for x, y in ((A, B), (C, D)):
        s = o.sign(x) * o.sign(y)
        st = o.st.copy()
        if not (x * y).is_const():
            o.eng.add_sign(st, x * y, {-1: NEG, 0: ZER, 1: POS}[s])
        o.st = st
    return o.sign(A * B - C * D)


def prims(ty):
    """method -> (argument names, spec(oracle))"""
    P_ = pts("pqrv", ty)
    p, q, r, v = (P_[n] for n in "pqrv")
    return {
        "cmp_slope": ("pqr", lambda o: hinted(o, q[0] - p[0], r[1] - p[1], q[1] - p[1], r[0] - p[0])),
        "cmp_vector_slope": ("vpq", lambda o: hinted(o, v[0], q[1] - p[1], v[1], q[0] - p[0])),
        "cmp_perp_vector_slope": ("vpq", lambda o: hinted(o, -v[1], q[1] - p[1], v[0], q[0] - p[0])),
    }


def types_of(ctx, m):
    out = []
    for s, ta, k in ctx.P.impl_index.get((PS, m), []):
        f = ctx.P.fns[k]
        if f.get("primary") and f["crate"] == "rgeometry" and (s, k) not in out:
            out.append((s, k))
    return out


def run(ctx):
    decide(ctx, prims, 14)


def decide(ctx, prims, floor):
    P = ctx.P
    ms = list(prims(("int", "i8", True)))
    for m in ms:
        tys = types_of(ctx, m)
        if len(tys) < floor:
            ctx.missing(f"implementations of {m} (found {len(tys)}, expected at least {floor})", len(tys))
        for ty, k in tys:
            names, sp = prims(ty)[m]
            e, st = Strict(P), State()
            ctx.engines.append(e)
            args = [ref(e, st, arr_(n, ty)) for n in names]

            def spec(o, x, sp=sp):
                want = sp(o)
                if x.kind != "ret":
                    return f"{cmp_name(want)}, not a panic ({x.val})"
                g = o.vname(x.val)
                if g == cmp_name(want):
                    return None
                if any("fl(" in a or "round_" in a for kf in o.st.facts if isinstance(kf, Poly) for a in kf.atoms()):
                    raise Rounded(o.st)
                return cmp_name(want)
            atoms = [n + c + "@" + tname(ty) for n in names for c in "xy"]
            cat = LazyCat(atoms, ty)
            try:
                Table(ctx, f"{m} for {tname(ty)}", k, args, st, spec, cat, atoms, eng=e).run()
            except Rounded as r_:
                ctx.violation(f"{m} for {tname(ty)}|rounded", ctx.where(P.fns[k]), f"{m} for {tname(ty)}: the verdict depends on a rounded floating-point operation",
                              {"path_facts": [repr(f) for f in r_.args[0].facts][:10]})
            if ctx.obl:
                ctx.obl[-1].update(exact_ops=e.checked_ops, split_ops=e.split_ops)


class Rounded(Exception):
    pass


class LazyCat:
    def __init__(self, names, ty):
        self.a, self.c = (names, ty), None

    def get(self):
        if self.c is None:
            self.c = BigCat(*self.a)
        return self.c

    def witness(self, facts):
        return self.get().witness(facts)

    def show(self, i, names):
        return self.get().show(i, names)
