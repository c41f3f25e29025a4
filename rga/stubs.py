"""Summaries of geometric predicates used while analysing the algorithms built on them.

Each predicate call becomes one named decision over named points (orders and turns are antisymmetric
in their names), so that an algorithm's paths are partitioned by its decisions and not by the
arithmetic behind them.  What the predicates themselves compute is decided by C01-C08.
"""
import re
from geo import *
from poly import Poly
from values import *
from engine import ordv, some, none, OPTION, Inconclusive
from ctx import nogen
from polyg import coords

BASE = re.compile(r"^(.*)\.(?:array|0)\[[01]\]$")

SGN = {NEG: -1, ZER: 0, POS: 1}


def ordering(s):
    return ordv({-1: NEG, 0: ZER, 1: POS}[s])


class Stubs:
    def __init__(self, ctx, e):
        self.ctx, self.e, self.P = ctx, e, ctx.P
        self.short, self.long = {}, {}

    # ------------------------------------------------------------------ names
    def intern(self, s):
        if len(s) < 60:
            return s
        if s not in self.short:
            self.short[s] = f"@{len(self.short)}"
            self.long[self.short[s]] = s
        return self.short[s]

    def full(self, s):
        """the name with all abbreviations expanded"""
        return re.sub(r"@\d+", lambda m: self.full(self.long.get(m.group(0), "?")), s)

    def point(self, st, v):
        v = self.e.deref(st, v)
        if isinstance(v, Opq):
            return self.intern(v.t)
        if isinstance(v, Adt) and v.path == POINT:
            p, q = coords(self.e, st, v)
            m, m2 = BASE.match(repr(p)), BASE.match(repr(q))
            if m and m2 and m.group(1) == m2.group(1):
                return self.intern(m.group(1))
            return self.intern(f"({p};{q})")
        raise Inconclusive(f"not a point: {v!r}"[:80])

    def fields(self, v, *names):
        """fields of a struct value by declared name"""
        a = self.P.adts[v.path]["variants"][v.v]
        idx = {f["n"]: i for i, f in enumerate(a["f"])}
        return [v.f[idx[n]] for n in names]

    # ------------------------------------------------------------------ registration
    def on(self, fn, path=None, trait=None, name=None, self_ty=None, targ=None):
        n = 0
        for k, f in self.P.fns.items():
            if f["kind"] == "Closure":
                continue
            if path is not None and nogen(f["path"]) != path:
                continue
            if trait is not None and f.get("impl_trait") != trait or name is not None and f["name"] != name:
                continue
            if self_ty is not None and not self_ty(f.get("impl_self")):
                continue
            if targ is not None and not targ(f.get("impl_trait_args")):
                continue
            self.e.fn_overrides[k] = fn
            n += 1
        if not n:
            raise Inconclusive(f"predicate not found: {path or name}")

    # ------------------------------------------------------------------ decisions
    def sign3(self, st, label, fixed, a, b):
        """antisymmetric three-way decision between a and b: [(sign, state)]"""
        if a == b:
            return [(0, st)]
        k = 1
        if b < a:
            a, b, k = b, a, -1
        p = Poly.atom(self.intern(f"{label}[{'|'.join([*fixed, a, b])}]"))
        return [(SGN[s] * k, x) for s, x in self.e.signs(st, p)]

    def choice(self, st, name, n):
        k = ("choice", name)
        if k in st.facts:
            return [(st.facts[k], st)]
        out = []
        for i in range(n):
            s2 = st.copy()
            s2.add(k, i)
            out.append((i, s2))
        return out

    def turn(self, st, a, b, c):
        """orientation of three named points: sign, antisymmetric in the names"""
        if len({a, b, c}) < 3:
            return [(0, st)]
        k = 1
        t = [a, b, c]
        for i in range(3):
            for j in range(2):
                if t[j + 1] < t[j]:
                    t[j], t[j + 1] = t[j + 1], t[j]
                    k = -k
        p = Poly.atom(self.intern(f"turn[{'|'.join(t)}]"))
        return [(SGN[s] * k, x) for s, x in self.e.signs(st, p)]

    def turn_mask(self, o, a, b, c):
        """the signs of the turn that are possible on a path"""
        k, t = 1, [a, b, c]
        if len(set(t)) < 3:
            return ZER
        for i in range(3):
            for j in range(2):
                if t[j + 1] < t[j]:
                    t[j], t[j + 1] = t[j + 1], t[j]
                    k = -k
        m = self.e.possible(o, Poly.atom(self.intern(f"turn[{'|'.join(t)}]")))
        return m if k > 0 else (m & ZER) | (POS if m & NEG else 0) | (NEG if m & POS else 0)

    def turn_sign(self, o, a, b, c):
        """the decided turn on a path (None when the path does not decide it)"""
        return SGN.get(self.turn_mask(o, a, b, c))

    def order_sign(self, o, label, fixed, a, b):
        k = 1
        if a == b:
            return 0
        if b < a:
            a, b, k = b, a, -1
        return self._sign(o, f"{label}[{'|'.join([*fixed, a, b])}]", k)

    def order_mask(self, o, label, fixed, a, b):
        """the signs of the decision between a and b that are possible on a path"""
        k = 1
        if a == b:
            return ZER
        if b < a:
            a, b, k = b, a, -1
        m = self.e.possible(o, Poly.atom(self.intern(f"{label}[{'|'.join([*fixed, a, b])}]")))
        if k < 0:
            m = (m & ZER) | (POS if m & NEG else 0) | (NEG if m & POS else 0)
        return m

    def _sign(self, o, name, k):
        m = self.e.possible(o, Poly.atom(self.intern(name)))
        return {NEG: -k, POS: k, ZER: 0}.get(m)

    # ------------------------------------------------------------------ the predicates
    def orientation(self, sign):
        n = [v["n"] for v in self.P.adts[ORI]["variants"]]
        return Adt(ORI, n.index({1: "CounterClockWise", -1: "ClockWise", 0: "CoLinear"}[sign]), [], ("adt", ORI, ()))

    def orient(self):
        def f(eng, st, args, c, dty, fr, sp):
            a = [self.point(st, x) for x in args]
            return [(self.orientation(s), x) for s, x in self.turn(st, *a)]
        self.on(f, path=POINT + "::orient")

    def angle_order(self):
        def f(eng, st, args, c, dty, fr, sp):
            o, a, b = [self.point(st, x) for x in args]
            return [(ordering(s), x) for s, x in self.sign3(st, "angle", [o], a, b)]
        self.on(f, path=POINT + "::ccw_cmp_around")

    def distance_order(self):
        def f(eng, st, args, c, dty, fr, sp):
            o, a, b = [self.point(st, x) for x in args]
            return [(ordering(s), x) for s, x in self.sign3(st, "dist", [o], a, b)]
        self.on(f, path=POINT + "::cmp_distance_to")

    def points_in(self, st, v, depth=0):
        """names of the points a value holds, in field order"""
        from polyg import CURSOR
        v = self.e.deref(st, v)
        if isinstance(v, Adt) and v.path == POINT:
            return [self.point(st, v)]
        if isinstance(v, Adt) and v.path == CURSOR:
            return [self.cursor_name(st, v)]
        if isinstance(v, Opq) and v.ty is not None and v.ty[0] == "adt" and v.ty[1] == POINT:
            return [self.intern(v.t)]
        if isinstance(v, (Adt, Tup, Arr)) and depth < 6:
            return [x for f in v.f for x in self.points_in(st, f, depth + 1)]
        return []

    def cursor_name(self, st, v):
        """the point a cursor designates: by ring position for cursors of a known polygon, by its own name otherwise"""
        from polyg import CURSOR
        w = self.e.deref(st, v)
        if isinstance(w, Opq):
            return self.intern(w.t)
        return self.intern(self.e.key(st, w))

    def cursors(self, concrete):
        """cursors of unknown polygons designate points named after them; concrete(st, cursor) keeps the real definition"""
        from polyg import CURSOR

        def f(eng, st, args, c, dty, fr, sp):
            v = eng.deref(st, args[0])
            if isinstance(v, Adt) and concrete(st, v):
                r = c.get("r")
                o = eng.fn_overrides.pop(r, None)
                try:
                    return eng.exec_fn(r, args, st, (fr.depth if fr else 0) + 1)
                finally:
                    if o is not None:
                        eng.fn_overrides[r] = o
            nm = self.intern(v.t if isinstance(v, Opq) else eng.key(st, v))
            return [(Ref(eng.new_cell(st, eng.mkdeep(st, nm, PT_TY)), (), False), st)]
        self.on(f, path=CURSOR + "::point")
        self.on(f, trait="core::ops::deref::Deref", name="deref", self_ty=lambda t: t is not None and t[0] == "adt" and t[1] == CURSOR)


def far(k, m):
    """(axis, direction) of a one-sided bound of a single coordinate by a constant"""
    if not isinstance(k, Poly) or m not in (NEG, NEG | ZER, POS, POS | ZER):
        return None
    lin = [(mono, c) for mono, c in k.t if mono]
    if len(lin) != 1 or len(lin[0][0]) != 1 or all(mono for mono, c in k.t):
        return None
    g = re.fullmatch(r"[^|;]*\.\w+\[([01])\]", str(lin[0][0][0]))
    if g is None or str(lin[0][0][0]).startswith(("len", "turn[", "dist[", "angle[")):
        return None
    return g.group(1), (1 if m & POS else -1) * (1 if lin[0][1] > 0 else -1)
