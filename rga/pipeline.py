"""Lazy iterator pipelines read as comprehensions.

`elements` turns an iterator value (a stack of adaptors over ranges, sequences or boundary
iterators) into generic elements: binders with symbolic bounds plus the element value, one per
path of the closures involved.  A pipeline with an unknown stage is inconclusive."""
from poly import Poly, ZERO, ONE
from values import *
from engine import Inconclusive

USZ = ("int", "usize", False)


class Elem:
    """{ val | binders: name in [lo, hi) , facts of st }; `keep` is False for paths on which the pipeline drops the element"""
    __slots__ = ("binders", "val", "st", "keep")

    def __init__(self, binders, val, st, keep=True):
        self.binders, self.val, self.st, self.keep = binders, val, st, keep


def nump(e, st, v):
    v = e.deref(st, v)
    if not isinstance(v, Num):
        raise Inconclusive("iterator bound is not a number")
    return v.p


def binder(e, st, lo, hi):
    e.bind_n = getattr(e, "bind_n", 0) + 1
    x = Poly.atom(f"i{e.bind_n}", USZ)
    st = st.copy()
    e.add_sign(st, x - lo, POS | ZER)
    e.add_sign(st, hi - x, POS)
    return x, st


def closure(e, st, f, args):
    for o in e.call_value(e.deref(st, f), f, args, st, None, None, None):
        if o.kind == "ret":
            yield o.val, o.st
        elif o.kind == "back":
            raise Inconclusive("loop inside a closure")


def elements(e, st, v, ring=None):
    v = e.deref(st, v)
    if not isinstance(v, Adt):
        raise Inconclusive(f"iterator {e.key(st, v)[:60]}")
    n = v.path.split("::")[-1]
    if n == "Range":
        lo, hi = nump(e, st, v.f[0]), nump(e, st, v.f[1])
        x, s = binder(e, st, lo, hi)
        return [Elem([(x, lo, hi)], Num(x, USZ), s)]
    if n == "RangeInc":
        lo, hi = nump(e, st, v.f[0]), nump(e, st, v.f[1])
        x, s = binder(e, st, lo, hi)
        return [Elem([(x, lo, hi)], Num(x, USZ), s)]
    if n in ("VIter", "MIter", "IntoIter"):
        seq, lo, hi = v.f[0], nump(e, st, v.f[1]), nump(e, st, v.f[2])
        x, s = binder(e, st, lo, hi)
        return [Elem([(x, lo, hi)], e.seq_read(s, e.deref(s, seq), x), s)]
    if n == "SIter":
        lo, hi = nump(e, st, v.f[1]), nump(e, st, v.f[2])
        x, s = binder(e, st, lo, hi)
        r = v.f[0]
        if not isinstance(r, Ref):
            raise Inconclusive("slice iterator")
        return [Elem([(x, lo, hi)], Ref(r.c, tuple(r.pr) + (("i", x),), False), s)]
    if n in ("Copied", "Cloned"):
        return [Elem(el.binders, e.deref(el.st, el.val), el.st, el.keep) for el in elements(e, st, v.f[0], ring)]
    if n in ("Rev", "Inspect", "Peekable"):
        return elements(e, st, v.f[0], ring)
    if n == "Enumerate":
        out = []
        for el in elements(e, st, v.f[0], ring):
            if len(el.binders) != 1:
                raise Inconclusive("enumerate of a nested pipeline")
            x, lo, hi = el.binders[0]
            out.append(Elem(el.binders, Tup([Num(x - lo + nump(e, st, v.f[1]), USZ), el.val]), el.st, el.keep))
        return out
    if n == "Skip":
        out = []
        k = nump(e, st, v.f[1])
        for el in elements(e, st, v.f[0], ring):
            if len(el.binders) != 1:
                raise Inconclusive("skip of a nested pipeline")
            x, lo, hi = el.binders[0]
            s = el.st.copy()
            e.add_sign(s, x - lo - k, POS | ZER)
            out.append(Elem([(x, lo + k, hi)], el.val, s, el.keep))
        return out
    if n == "Take":
        out = []
        k = nump(e, st, v.f[1])
        for el in elements(e, st, v.f[0], ring):
            if len(el.binders) != 1:
                raise Inconclusive("take of a nested pipeline")
            x, lo, hi = el.binders[0]
            s = el.st.copy()
            e.add_sign(s, lo + k - x, POS)
            out.append(Elem([(x, lo, hi)], el.val, s, el.keep))
        return out
    if n == "Map":
        out = []
        for el in elements(e, st, v.f[0], ring):
            if not el.keep:
                out.append(el)
                continue
            for w, s in closure(e, el.st, v.f[1], [el.val]):
                out.append(Elem(el.binders, w, s))
        return out
    if n in ("Filter", "FilterMap"):
        out = []
        for el in elements(e, st, v.f[0], ring):
            if not el.keep:
                out.append(el)
                continue
            a = el.val
            s0 = el.st
            if n == "Filter":
                s0 = s0.copy()
                a = Ref(e.new_cell(s0, a))
            for w, s in closure(e, s0, v.f[1], [a]):
                if n == "Filter":
                    for b, s2 in e.ask_bool(s, w):
                        out.append(Elem(el.binders, el.val, s2, b))
                else:
                    for i, s2 in e.variants(s, w):
                        w2 = e.deref(s2, w)
                        out.append(Elem(el.binders, e.project(s2, e.project(s2, w2, ("v", 1)), (".", 0)) if i == 1 else None, s2, i == 1))
        return out
    if n == "FlatMap":
        out = []
        for el in elements(e, st, v.f[0], ring):
            if not el.keep:
                out.append(el)
                continue
            for w, s in closure(e, el.st, v.f[1], [el.val]):
                for e2 in elements(e, s, w, ring):
                    out.append(Elem(el.binders + e2.binders, e2.val, e2.st, e2.keep))
        return out
    if n == "Chain":
        return elements(e, st, v.f[0], ring) + elements(e, st, v.f[1], ring)
    raise Inconclusive(f"unknown pipeline stage {n}")


def value(p, env, size, nv):
    q = p.subst({a: Poly.const(c) for a, c in env.items() if a in p.atoms()}).subst({size: Poly.const(nv)} if size in p.atoms() else {})
    return int(q.const_val()) if q.is_const() else None


def constants(elems, size):
    """magnitudes the bounds and conditions of a pipeline compare with"""
    out = set()
    for el in elems:
        names = {repr(b[0]) for b in el.binders} | {size}
        ps = [p for b in el.binders for p in b[1:]] + [k for k in el.st.facts if isinstance(k, Poly) and names & {*map(str, k.atoms())}]
        out |= {abs(int(p.subst({a: Poly.const(0) for a in p.atoms()}).const_val() or 0)) for p in ps}
    return out


def admits(el, env, size, nv):
    for k, m in el.st.facts.items():
        if isinstance(k, Poly):
            v = value(k, env, size, nv)
            if v is not None and not m & (NEG if v < 0 else POS if v > 0 else ZER):
                return False
    return True


def produced(elems, size, nv, index_of, tuples):
    """which of the given index tuples the pipeline produces for a (possibly huge) length; index functions must be invertible"""
    got = set()
    for el in elems:
        idx = index_of(el)
        names = [repr(b[0]) for b in el.binders]
        for t in tuples:
            env = {}
            for p, want in zip(idx, t):
                own = [a for a in names if a in p.atoms()]
                if len(own) != 1:
                    raise Inconclusive(f"index {p} of the pipeline")
                z = value(p, {own[0]: 0}, size, nv)
                o = value(p, {own[0]: 1}, size, nv)
                if z is None or o is None or o == z or (want - z) % (o - z):
                    break
                c = (want - z) // (o - z)
                if env.setdefault(own[0], c) != c:
                    break
            else:
                if set(env) != set(names):
                    raise Inconclusive("index functions of the pipeline")
                ok = admits(el, env, size, nv)
                for x, lo, hi in el.binders:
                    l, h = value(lo, env, size, nv), value(hi, env, size, nv)
                    if l is None or h is None:
                        raise Inconclusive("bounds of the pipeline")
                    ok = ok and l <= env[repr(x)] < h
                if ok:
                    got.add(t)
    return got


def index_sets(elems, size, n_values, index_of):
    """the finite sets of index tuples denoted for small sequence lengths; index_of(elem) -> tuple of polynomials.
    Bounds and indices must be affine in the binders and the length; path facts over them restrict the elements.
    Lengths just above every constant of the pipeline are added."""
    consts = {c + d for c in constants(elems, size) if 6 <= c <= 200 for d in (1, 2, 3)}
    out = {}
    for nv in sorted(set(n_values) | consts):
        got = set()
        for el in elems:
            idx = index_of(el)

            def val(p, env):
                v = value(p, env, size, nv)
                if v is None:
                    raise Inconclusive(f"pipeline bound {p}")
                return v

            def rec(k, env):
                if not admits(el, env, size, nv):
                    return
                if k == len(el.binders):
                    got.add(tuple(val(p, env) for p in idx))
                    return
                x, lo, hi = el.binders[k]
                for i in range(val(lo, env), val(hi, env)):
                    rec(k + 1, dict(env, **{repr(x): i}))
            rec(0, {})
        out[nv] = got
    return out
