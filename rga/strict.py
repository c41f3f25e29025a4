"""Machine-arithmetic instance of the abstract interpreter.

Values stay exact polynomials over the inputs; every fixed-width operation is justified by an
interval for its exact result (type ranges of the inputs, the partition's sign facts and intervals of
intermediate results).  Operations whose exact result may leave the type are split into the wrapped /
overflowing cases; floating-point operations that may round yield uninterpreted fl(..) numbers.
"""
from engine import *
from engine import int_range, is_float_ty
from poly import DEFS


def wrapped(p, ty):
    """the number that is left of p in a fixed-width type, where the window is not known"""
    lo, hi = int_range(ty)
    return defined(f"wrap_{ty[1]}({p})", [p], lambda x: (x - lo) % (hi - lo + 1) + lo, ty)


def defined(nm, ps, f, ty):
    DEFS[nm] = (ps, f)
    return Poly.atom(nm, ty)


def tdiv(x, y):
    """machine division, towards zero (0 where the divisor is 0: such a path has panicked)"""
    z = y == 0
    y = y + z
    q = abs(x) // abs(y)
    import numpy as np
    return np.where(z, 0, np.where((x < 0) != (y < 0), -q, q))


class Strict(Engine):
    def __init__(self, prog, **kw):
        super().__init__(prog, strict=True, **kw)
        self.checked_ops = 0
        self.split_ops = 0

    def interval(self, st, p):
        if p.is_const():
            c = p.const_val()
            return c, c
        lo, hi = self.lower(st, p), self.lower(st, -p)
        lo = None if lo is None else lo[0]
        hi = None if hi is None else -hi[0]
        if len(p.t) > 1 and (lo is None or hi is None):
            a, b = 0, 0
            for m, c in p.t:
                x, y = self.mono(st, m)
                if x is None or y is None:
                    a = b = None
                    break
                x, y = (x * c, y * c) if c > 0 else (y * c, x * c)
                a, b = a + x, b + y
            if a is not None:
                lo = a if lo is None else max(lo, a)
                hi = b if hi is None else min(hi, b)
        return lo, hi

    def mono(self, st, m):
        lo, hi = 1, 1
        for x in m:
            t = ATOM_TY.get(x)
            if t is None or t[0] != "int":
                return None, None
            a, b = int_range(t)
            c = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(c), max(c)
        return lo, hi

    @staticmethod
    def iv_op(op, a, b):
        if None in a or None in b:
            return None, None
        if op == "Add":
            return a[0] + b[0], a[1] + b[1]
        if op == "Sub":
            return a[0] - b[1], a[1] - b[0]
        c = [x * y for x in a for y in b]
        return min(c), max(c)

    def op_poly(self, op, a, b, st):
        """(exact polynomial, interval, state with the interval recorded)"""
        p = a.p + b.p if op == "Add" else a.p - b.p if op == "Sub" else a.p * b.p
        if p.is_const():
            return p, (p.const_val(),) * 2, st
        ia, ib = self.interval(st, a.p), self.interval(st, b.p)
        lo, hi = self.iv_op(op, ia, ib)
        if op == "Mul" and (a.p - b.p).t == () and lo is not None:
            lo = max(lo, 0)
        d = self.interval(st, p)
        rec = any(len(m) > 1 for m, _ in p.t)
        if lo is not None and (d[0] is None or lo > d[0]):
            rec = True
        if hi is not None and (d[1] is None or hi < d[1]):
            rec = True
        lo = d[0] if lo is None else lo if d[0] is None else max(lo, d[0])
        hi = d[1] if hi is None else hi if d[1] is None else min(hi, d[1])
        if rec:
            st = st.copy()
            if lo is not None:
                self.add_sign(st, p - Poly.const(lo), POS | ZER)
            if hi is not None:
                self.add_sign(st, p - Poly.const(hi), NEG | ZER)
        return p, (lo, hi), st

    def windows(self, p, iv, ty, st):
        """[(k, state)]: the exact value lies in the k-th translate of the type's range"""
        lo, hi = int_range(ty)
        w = hi - lo + 1
        a, b = iv
        if a is not None and b is not None and lo <= a and b <= hi:
            self.checked_ops += 1
            return [(0, st)]
        self.split_ops += 1
        if a is None or b is None or (b - a) // w > 8:
            return None
        out = []
        for k in range((a - lo) // w, (b - lo) // w + 1):
            for t1, s1 in self.test(st, p - Poly.const(lo + k * w), POS | ZER):
                if t1:
                    for t2, s2 in self.test(s1, p - Poly.const(hi + k * w), NEG | ZER):
                        if t2:
                            out.append((k, s2))
        return out

    def wrapping(self, p, ty, st, iv=None):
        if p.is_const():
            lo, hi = int_range(ty)
            w = hi - lo + 1
            return [(Num(Poly.const((p.const_val() - lo) % w + lo), ty), st)]
        ws = self.windows(p, iv or self.interval(st, p), ty, st)
        if ws is None:
            return [(Num(wrapped(p, ty), ty), st)]
        lo, hi = int_range(ty)
        return [(Num(p - Poly.const(k * (hi - lo + 1)), ty), s) for k, s in ws]

    def overflowing(self, op, a, b, ty, st):
        p, iv, st = self.op_poly(op, a, b, st)
        ws = self.windows(p, iv, ty, st)
        lo, hi = int_range(ty)
        if ws is None:
            out = []
            for t1, s1 in self.test(st, p - Poly.const(lo), POS | ZER):
                for t2, s2 in (self.test(s1, p - Poly.const(hi), NEG | ZER) if t1 else [(False, s1)]):
                    out.append((Tup([Num(p if t2 else wrapped(p, ty), ty), not t2]), s2))
            return out
        return [(Tup([Num(p - Poly.const(k * (hi - lo + 1)), ty), k != 0]), s) for k, s in ws]

    def int_cast(self, v, src, ty, st):
        return self.wrapping(v.p, ty, st)

    def arith(self, op, a, b, ty, st, with_ov=False):
        ty = ty if ty is not None else a.ty
        if is_float_ty(ty):
            if a.p.is_const() and b.p.is_const() and op != "Div":
                return super().arith(op, a, b, ty, st, with_ov)
            return [(Num(Poly.atom(f"fl({op},{a.p},{b.p})", ty), ty), st)]
        if ty is None or ty[0] != "int":
            return super().arith(op, a, b, ty, st, with_ov)
        if with_ov:
            return self.overflowing(op, a, b, ty, st)
        p, iv, st = self.op_poly(op, a, b, st)
        return self.wrapping(p, ty, st, iv)

    def divrem(self, op, a, b, ty, st):
        if is_float_ty(ty) or is_float_ty(a.ty):
            return [(Num(Poly.atom(f"fl({op},{a.p},{b.p})", ty or a.ty), ty or a.ty), st)]
        out = super().divrem(op, a, b, ty, st)
        if ty is not None and ty[0] == "int":
            DEFS[f"idiv({a.p};{b.p})"] = ([a.p, b.p], tdiv)
            DEFS[f"irem({a.p};{b.p})"] = ([a.p, b.p], lambda x, y: x - tdiv(x, y) * y)
        return out

    def bitop(self, op, vs, ty):
        nm = f"{op}({','.join(map(repr, vs))})"
        fs = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y, "Shr": lambda x, y: x >> y}
        if ty is not None and ty[0] == "int" and op in fs and len(vs) == 2:
            return Num(defined(nm, [v.p for v in vs], fs[op], ty), ty)
        return super().bitop(op, vs, ty)

    def shift(self, op, a, b, ty, st):
        """(value, state) pairs of a shift by a constant"""
        k = b.p.const_val()
        if op == "Shl":
            return self.wrapping(a.p.scale(1 << k), ty, st)
        q = self.bitop("Shr", [a, b], ty)
        st = st.copy()
        self.add_sign(st, a.p - q.p.scale(1 << k), POS | ZER)
        self.add_sign(st, q.p.scale(1 << k) + Poly.const((1 << k) - 1) - a.p, POS | ZER)
        return [(q, st)]

    def binop(self, op, a, b, ty, st):
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and ty is not None and ty[0] == "int":
            x, y = self.deref(st, a), self.deref(st, b)
            if isinstance(x, Num) and isinstance(y, Num) and y.p.is_const() and not x.p.is_const():
                return self.shift(op[:3], x, y, ty, st)
        return super().binop(op, a, b, ty, st)

    def num_neg(self, st, v):
        return Num(-v.p, v.ty)
