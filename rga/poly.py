"""Polynomial normal forms (the value-numbering domain) with rational coefficients."""
from fractions import Fraction

CANON = {}
ATOM_TY = {}      # atom name -> type tuple (or None)
DEFS = {}         # atom name of an integer computed otherwise than by ring operations -> (polynomials it is made of, function)


class Poly:
    __slots__ = ("t", "_h", "_s")

    def __init__(self, terms):
        # terms: dict monomial(tuple of atom names, sorted) -> coefficient
        self.t = tuple(sorted((m, c) for m, c in terms.items() if c != 0))
        self._h = hash(self.t)
        self._s = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(name, ty=None):
        if ty is not None and name not in ATOM_TY:
            ATOM_TY[name] = ty
        return Poly({(name,): 1})

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return self._h

    def __add__(self, o):
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t})

    def __sub__(self, o):
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) - c
        return Poly(d)

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = tuple(sorted(m1 + m2))
                d[m] = d.get(m, 0) + c1 * c2
        return simp_inv(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t})

    def is_const(self):
        return len(self.t) == 0 or (len(self.t) == 1 and self.t[0][0] == ())

    def const_val(self):
        return self.t[0][1] if self.t else 0

    def constant_part(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def atoms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s

    def canon(self):
        """(canonical primitive poly, sign) with self = positive * sign * canonical"""
        if not self.t:
            return self, 1
        c = CANON.get(self)
        if c is not None:
            return c
        c = self._canon()
        if len(CANON) > 200000:
            CANON.clear()
        CANON[self] = c
        return c

    def _canon(self):
        lead = self.t[-1][1]
        s = 1 if lead > 0 else -1
        if len(self.t) == 1 and lead in (1, -1):
            return (self, 1) if lead == 1 else (-self, -1)
        from math import gcd
        den = 1
        for _, c in self.t:
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for _, c in self.t:
            g = gcd(g, int(c * den))
        return Poly({m: int(c * den) // g * s for m, c in self.t}), s

    def subst(self, env):
        r = ZERO
        for m, c in self.t:
            p = Poly.const(c)
            for a in m:
                p = p * (env[a] if a in env else Poly.atom(a))
            r = r + p
        return r

    def eval(self, env):
        r = 0
        for m, c in self.t:
            v = c
            for a in m:
                v = v * env[a]
            r += v
        return r

    def __repr__(self):
        if self._s is None:
            if not self.t:
                self._s = "0"
            else:
                out = []
                for m, c in reversed(self.t):
                    body = "*".join(m)
                    if not m:
                        out.append(str(c))
                    elif c == 1:
                        out.append(body)
                    elif c == -1:
                        out.append("-" + body)
                    else:
                        out.append(f"{c}*{body}")
                self._s = " + ".join(out).replace("+ -", "- ")
        return self._s


ZERO = Poly({})
ONE = Poly({(): 1})


def simp_inv(d):
    """cancel x * inv(x) inside monomials"""
    out = {}
    for m, c in d.items():
        if c == 0:
            continue
        if any(a.startswith("inv(") for a in m):
            m = list(m)
            changed = True
            while changed:
                changed = False
                for a in m:
                    if a.startswith("inv(") and a[4:-1] in m:
                        m.remove(a)
                        m.remove(a[4:-1])
                        changed = True
                        break
            m = tuple(m)
        out[m] = out.get(m, 0) + c
    return Poly(out)


INVS = {}       # inv-atom -> the polynomial it inverts


def inverse(p):
    """1/p as a polynomial in inv-atoms (field semantics)."""
    if p.is_const():
        return Poly.const(Fraction(1) / p.const_val()) if p.const_val() else Poly.atom("infinite")
    c, s = p.canon()
    # ratio p = k * c
    k = Fraction(p.t[-1][1]) / c.t[-1][1]
    if len(c.t) == 1:
        m, cc = c.t[0]
        r = Poly.const(Fraction(1) / (k * cc))
        for a in m:
            if a.startswith("inv("):
                r = r * Poly.atom(a[4:-1])
            else:
                INVS[f"inv({a})"] = Poly.atom(a)
                r = r * Poly.atom(f"inv({a})")
        return r
    INVS[f"inv({c})"] = c
    return Poly({(f"inv({c})",): Fraction(1) / k})
