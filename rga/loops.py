"""Induction schemes of boundary loops: one symbolic iteration stands for all of them.

A loop summarised by the engine is a set of iteration paths ("back" outcomes) over havoc'd loop
variables and a set of exits.  `ring_loop` recovers which loop variable walks the positions
0..n-1 of the ring exactly once, and classifies every outcome: `back` (one more iteration),
`early` (leaves during an iteration), `done` (leaves after the last position).  A loop whose
scheme is not recognised is inconclusive, never an alarm.
"""
from poly import Poly, ZERO, ONE
from values import *
from engine import Inconclusive


class Row:
    __slots__ = ("kind", "o", "upd")

    def __init__(self, kind, o, upd):
        self.kind, self.o, self.upd = kind, o, upd


class Loop:
    def __init__(self, info, k, flag, rows):
        self.info, self.k, self.flag, self.rows = info, k, flag, rows

    def accumulators(self):
        """names of the loop variables other than the position and the end marker -> entry value"""
        out = {}
        for r in self.rows:
            for n, (i, b) in r.upd.items():
                if n != self.k and n != self.flag:
                    out.setdefault(n, i)
        return out


def atom(n):
    return Poly.atom(n)


def loops_of(outs):
    """LoopInfo -> its outcomes, in order of first appearance"""
    res = {}
    for o in outs:
        if o.kind == "back":
            res.setdefault(id(o.info), (o.info, []))[1].append(o)
    for o in outs:
        for info in o.st.tags.get("loops", ()):
            if id(info) in res and not any(x is o for x in res[id(info)][1]):
                res[id(info)][1].append(o)
    return list(res.values())


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, Opq) and v.ty is not None and v.ty[0] == "bool")


def flag_value(e, st, name, cur=None):
    v = st.facts.get(("bool", name)) if cur is None else cur
    return v if isinstance(v, bool) else None


def ring_loop(e, info, outs, n, first=ZERO):
    """the loop walks positions first..n-1; raises Inconclusive when that cannot be established"""
    backs = [o for o in outs if o.kind == "back" and o.info is info]
    ups = [(o, e.phi_updates(info, o.st)) for o in backs]
    if not backs:
        raise Inconclusive("loop without an iteration path")
    names = set(ups[0][1])
    for _, u in ups[1:]:
        names &= set(u)
    cands = []
    for k in sorted(names):
        i0 = ups[0][1][k][0]
        if not isinstance(i0, Num) or not (i0.p - first).t == ():
            continue
        ka = None
        ok = True
        for o, u in ups:
            b = u[k][1]
            if not isinstance(b, Num):
                ok = False
                break
            if ka is None:
                ka = phi_atom(info, k)
            d = b.p - ka
            if d == ONE:
                continue
            last = e.possible(o.st, n - ONE - ka) == ZER
            if (b.p.t == () or d.t == ()) and last:
                continue
            ok = False
            break
        if ok and any(u[k][1].p - ka == ONE for _, u in ups):
            cands.append((k, ka))
    for k, ka in cands:
        flags = [f for f in sorted(names) if f != k and ups[0][1][f][0] is False]
        for f in flags + [None]:
            r = classify(e, info, outs, ups, n, k, ka, f)
            if r is not None:
                return Loop(info, ka, f, r)
    raise Inconclusive("the loop's walk over the boundary was not recognised")


def ring_scan(e, info, outs, n, caps=True):
    """like ring_loop, also recognising walks that leave out vertices; returns (loop, what is left out)"""
    for cut in (False, True) if caps else (False,):
        keep, cuts = uncapped(e, info, outs) if cut else (outs, [])
        if cut and not cuts:
            break
        for first in range(0, 4):
            try:
                l = ring_loop(e, info, keep, n, Poly.const(first))
            except Inconclusive as x:
                if first == 0 and not cut:
                    why = x
                continue
            if all((l.flag is None or flag_value(e, o.st, l.flag) is None) and e.possible(o.st, n - l.k) & POS for o in cuts):
                return l, "later" if cut else first
    raise why


def uncapped(e, info, outs):
    """(other outcomes, exits taken when a counter that starts elsewhere reaches a constant)"""
    ups = [e.phi_updates(info, o.st) for o in outs if o.kind == "back" and o.info is info]
    keep, cuts = [], []
    for o in outs:
        drop = False
        if ups and not (o.kind == "back" and o.info is info) and o.kind != "panic":
            for k, (i0, _) in ups[0].items():
                if not isinstance(i0, Num) or not i0.p.is_const() or not all(k in u and isinstance(u[k][1], Num) for u in ups):
                    continue
                ka = phi_atom(info, k)
                if len({(u[k][1].p - ka) for u in ups}) != 1 or ups[0][k][1].p - ka not in (ONE, ZERO - ONE):
                    continue
                pins = [f for f in o.st.facts if isinstance(f, Poly) and f.atoms() == ka.atoms() and e.possible(o.st, f) == ZER]
                if pins and e.possible(o.st, ka - i0.p) & ZER == 0:
                    drop = True
        (cuts if drop else keep).append(o)
    return keep, cuts


def phi_atom(info, name):
    """the loop variable as a polynomial (with the type it was created with)"""
    from poly import ATOM_TY
    return Poly.atom(name, ATOM_TY.get(name))


def classify(e, info, outs, ups, n, k, ka, f):
    rows = []
    upd = {id(o): u for o, u in ups}
    for o in outs:
        if o.kind == "panic":
            continue
        st = o.st.copy()
        e.add_sign(st, ka, POS | ZER)
        back = o.kind == "back" and o.info is info
        if f is not None:
            cur = flag_value(e, st, f)
            if cur is True:
                if back:
                    return None
                rows.append(Row("done", o, {}))
                continue
            if cur is None:
                return None
            e.add_sign(st, n - ka, POS)
            if back:
                nxt = upd[id(o)][f][1]
                nxt = False if isinstance(nxt, Opq) and nxt.t == f else nxt
                lastm = e.possible(st, n - ONE - ka)
                step = upd[id(o)][k][1].p - ka
                if nxt is True and lastm == ZER:
                    pass
                elif nxt is False and lastm & ZER == 0 and step == ONE:
                    pass
                else:
                    return None
                rows.append(Row("back", copy(o, st), upd[id(o)]))
            else:
                rows.append(Row("early", copy(o, st), {}))
        else:
            m = e.possible(st, n - ka)
            if m & POS == 0:
                if back:
                    return None
                rows.append(Row("done", o, {}))
            elif m == POS:
                if back:
                    if upd[id(o)][k][1].p - ka != ONE:
                        return None
                    rows.append(Row("back", copy(o, st), upd[id(o)]))
                else:
                    rows.append(Row("early", copy(o, st), {}))
            else:
                return None
    if not any(r.kind == "done" for r in rows) and not any(r.kind == "early" for r in rows):
        return None
    return rows


def copy(o, st):
    from engine import Outcome
    return Outcome(o.kind, o.val, st, o.info)


def rename(p, env):
    """replace whole atoms by polynomials"""
    return p.subst(env)


def sums(e, loops, vertex, n):
    """phi name -> its value after the loop as a polynomial over symbolic sums S[monomial in ax, ay, bx, by], where a runs
    over the vertices of the ring and b is a's successor.  Sums are linear and invariant under shifting a to b, so equal
    totals get equal normal forms.  vertex(state, position) gives the coordinates at a ring position."""
    out = {}
    for l in loops:
        for name, init in l.accumulators().items():
            if not isinstance(init, Num):
                continue
            total = None
            for r in l.rows:
                if r.kind == "early":
                    total = None
                    break
                if r.kind != "back":
                    continue
                u = r.upd[name][1]
                if not isinstance(u, Num):
                    total = None
                    break
                d = u.p - Poly.atom(name)
                st = r.o.st
                nxt = ZERO if e.possible(st, n - ONE - l.k) == ZER else l.k + ONE
                env = {}
                for q, tag in ((l.k, "a"), (nxt, "b")):
                    for z, c in zip(vertex(st, q), "xy"):
                        env[repr(z)] = Poly.atom(tag + c)
                d = canon_sum(d.subst(env))
                if total is None:
                    total = d
                elif total != d:
                    total = None
                    break
            if total is not None:
                out[name] = init.p + total
    return out


LOCAL = ("ax", "ay", "bx", "by")


def canon_sum(d):
    r = ZERO
    for m, c in d.t:
        loc = [a for a in m if a in LOCAL]
        rest = [a for a in m if a not in LOCAL]
        if loc and all(a[0] == "b" for a in loc):
            loc = ["a" + a[1] for a in loc]
        t = Poly.const(c)
        for a in rest:
            t = t * Poly.atom(a)
        r = r + t * Poly.atom("S[" + "*".join(sorted(loc)) + "]")
    return r
