"""Small polygons: rings of a fixed size, every loop of a function unrolled.

The induction schemes of loops.py decide what one iteration does for rings of any size; what happens
around the loop (an exit taken before it, a walk that leaves out a vertex) is decided here.  With the
ring size fixed every path is a finite list of facts over the coordinates of the ring's vertices; each
path is a row of a decision table, compared with the defining rule and reported when it is inhabited by
an entry of a finite list of small simple polygons.
"""
import math
import numpy as np
from poly import Poly, DEFS, ZERO
from values import *
from engine import Inconclusive
from polyg import coords, num


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on_seg(a, b, c):
    return cross(a, b, c) == 0 and min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    s = [np.sign(x) for x in (cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b))]
    return s[0] != s[1] and s[2] != s[3] and 0 not in s or any((on_seg(a, b, c), on_seg(a, b, d), on_seg(c, d, a), on_seg(c, d, b)))


def simple(vs):
    n = len(vs)
    if len(set(vs)) != n:
        return False
    for i in range(n):
        a, b, c = vs[i - 1], vs[i], vs[(i + 1) % n]
        if cross(a, b, c) == 0 and (a[0] - b[0]) * (c[0] - b[0]) + (a[1] - b[1]) * (c[1] - b[1]) > 0:
            return False
        for j in range(i + 2, n):
            if (j + 1) % n != i and meet(vs[i], vs[(i + 1) % n], vs[j], vs[(j + 1) % n]):
                return False
    return n > 2 and not (n == 3 and cross(*vs) == 0)


_memo = {}


def spread(rows, *more, seed=3):
    """the same configurations with some of them repeated far from the origin and drawn large: a path taken only by
    coordinates beyond a bound is represented there"""
    rng = np.random.default_rng(seed)
    out = [[x] for x in (rows,) + more]
    for move in (lambda x: x + 1000, lambda x: x - 1000, lambda x: x * 300):
        k = rng.choice(len(rows), max(1, len(rows) // 5), replace=False)
        for o in out:
            o.append(move(o[0][k]))
    out = [np.concatenate(o) for o in out]
    return out if more else out[0]


def polygons(n, g=3, m=1500, seed=5):
    """m simple polygons with n vertices on a g x g grid, and on a wider one"""
    k = (n, g, m, seed)
    if k not in _memo:
        rng = np.random.default_rng(seed)
        out, seen, tries = [], set(), 0
        while len(out) < m and tries < 200 * m:
            tries += 1
            h = g if tries % 3 else 4 * g
            vs = tuple((int(x), int(y)) for x, y in rng.integers(0, h, (n, 2)))
            if n > 5:       # in the order seen from one of the places between them
                c = (vs[0][0] + vs[1][0] + vs[2][0]) / 3 + .01, (vs[0][1] + vs[1][1] + vs[2][1]) / 3 + .003
                d = 1 if rng.integers(2) else -1
                vs = tuple(sorted(vs, key=lambda v: d * math.atan2(v[1] - c[1], v[0] - c[0])))
            if vs not in seen and simple(vs):
                seen.add(vs)
                out.append(vs)
        _memo[k] = np.array(out, dtype=np.int64)
    return _memo[k]


class Columns(dict):
    """one number per polygon for every name the analysis may use"""

    def __init__(self, resolve):
        self.resolve, self.none = resolve, set()

    def __contains__(self, a):
        if dict.__contains__(self, a):
            return True
        if a in self.none:
            return False
        v = None
        if a in DEFS:
            ps, f = DEFS[a]
            if all(x in self for p in ps for x in p.atoms()):
                v = np.asarray(f(*[value(p, self) for p in ps]))
        else:
            v = self.resolve(a)
        if v is None:
            self.none.add(a)
            return False
        self[a] = v
        return True


def value(p, cols):
    n = len(cols["#"])
    r = np.zeros(n, dtype=np.int64)
    for m, c in p.t:
        if not isinstance(c, int):
            raise KeyError("fraction")
        v = np.full(n, c, dtype=np.int64)
        for a in m:
            v = v * cols[a]
        r = r + v
    return r


def fix(e, st, p, N, paths=6000):
    """give every table of the polygon its length; loops over them are unrolled"""
    e.unroll, e.trip_states, e.fixed_sizes = 3 * N + 3, paths, True
    for seq, k in ((p.points(st), N), (p.ringidx(st), N), (p.posidx(st), N), (p.rings(st), 1), (p.ring(st, ZERO), N)):
        e.seqinfo[e.deref(st, seq).t] = ("sized", e.deref(st, seq), Poly.const(k))


class Small:
    """the polygons of one size as columns named like the analysis names the ring's coordinates"""

    def __init__(self, e, st, p, N, rows):
        self.N, self.xy, self.e, self.signs = N, rows, e, {}
        self.joins = 0
        e.merge_rounds = self.merge
        cols = self.cols = Columns(self.resolve)
        zero = cols["#"] = np.zeros(len(rows), dtype=np.int64)
        perm = [(3 * k + 1) % N if N % 3 else (k + 1) % N for k in range(N)]
        inv = [perm.index(j) for j in range(N)]
        n = p.size(st)
        for q in (n, e.seq_len(st, p.points(st)), e.seq_len(st, p.ringidx(st)), e.seq_len(st, p.posidx(st))):
            if not q.is_const():
                cols[atom_of(q)] = zero + N
        nr = e.seq_len(st, p.rings(st))
        if not nr.is_const():
            cols[atom_of(nr)] = zero + 1
        key = lambda v: e.deref(st, v).t
        # how the numbers inside an element are called
        v0 = e.seq_read(st, p.points(st), ZERO)
        k0 = f"{key(p.points(st))}[0]"
        self.tabs = {}
        pts = rows[:, inv, :]
        self.tabs[key(p.points(st))] = {atom_of(c)[len(k0):]: pts[:, :, ax] for ax, c in enumerate(coords(e, st, v0))}
        self.rings = key(p.rings(st))
        for seq, vals in ((p.ringidx(st), [0] * N), (p.posidx(st), inv), (p.ring(st, ZERO), perm)):
            k = key(seq)
            c = num(e, st, e.seq_read(st, seq, ZERO))
            self.tabs[k] = {atom_of(c)[len(k) + 3:]: np.tile(np.array(vals), (len(rows), 1))}
        self.ring0 = key(p.ring(st, ZERO))

    def resolve(self, a):
        """a number inside an element of one of the polygon's tables"""
        if a.startswith("len(") and a[4:-1] in self.e.elems and self.e.elems[a[4:-1]][0] == self.rings:
            return self.cols["#"] + self.N
        i = len(a)
        while True:
            i = a.rfind("]", 0, i)
            if i < 0:
                return None
            el = self.e.elems.get(a[:i + 1])
            if el is None:
                continue
            seq, idx = el
            if seq in self.e.elems and self.e.elems[seq][0] == self.rings:
                seq = self.ring0
            t = self.tabs.get(seq, {}).get(a[i + 1:])
            if t is None:
                continue
            if any(x not in self.cols for x in idx.atoms()):
                return None
            at = value(idx, self.cols)
            return np.take_along_axis(t, np.clip(at, 0, self.N - 1)[:, None], 1)[:, 0]

    def add(self, polys, arrs):
        for p, a in zip(polys, arrs):
            self.cols[atom_of(p)] = a

    def holds(self, st):
        """which polygons satisfy every fact of a path; None when a fact is about something else"""
        mask, facts = st.tags.get("mask"), st.facts
        for k, m in facts.items():
            if not isinstance(k, Poly):
                return None
            c = self.signs.get((k, m))
            if c is None:
                if any(a not in self.cols for a in k.atoms()):
                    return None
                v = value(k, self.cols)
                c = (np.where(v < 0, NEG, np.where(v > 0, POS, ZER)) & m) != 0
                if len(self.signs) < 3000:
                    self.signs[(k, m)] = c
            mask = c if mask is None else mask & c
            if not mask.any():
                return mask
        return mask if mask is not None else np.ones(len(self.xy), dtype=bool)

    def merge(self, entry, states):
        """rounds that leave the same values behind become one path, known by the polygons that take it; numbers that
        differ become one number, known by its value on each polygon"""
        out, groups, known = [], {}, []
        for s in states:
            m = self.holds(s)
            if m is None:
                out.append(s)
            elif m.any():
                known.append((s, m))
        cells = [c for c in sorted(entry.mem) if any(s.mem.get(c) is not entry.mem[c] for s, _ in known)]
        for s, m in known:
            w = Walk(self, entry, s, cells)
            groups.setdefault(w.skeleton(), []).append((s, m, w.leaves))
        for ss in groups.values():
            s, m, leaves = ss[0]
            new = []
            for j, (p, ty) in enumerate(leaves):
                if all(x[2][j][0] == p for x in ss):
                    new.append(p)
                    continue
                v = np.zeros(len(self.xy), dtype=np.int64)
                for _, mk, lv in ss:
                    v = np.where(mk, value(lv[j][0], self.cols), v)
                self.joins += 1
                nm = f"join{self.joins}"
                self.cols[nm] = v
                new.append(Poly.atom(nm, ty))
            s = s.copy()
            Walk(self, entry, s, cells).rebuild(new)
            for x in ss[1:]:
                m = m | x[1]
            s.facts = dict(entry.facts)
            s._tab = None
            s.tags = dict(s.tags, mask=m)
            out.append(s)
        return out


class Walk:
    """what a round changed, as a skeleton with its numbers taken out"""

    def __init__(self, small, entry, st, cells):
        self.small, self.entry, self.st, self.cells, self.leaves = small, entry, st, cells, []

    def skeleton(self):
        self.seen, self.new = {}, None
        return tuple((c, self.go(self.st.mem.get(c))[0]) for c in self.cells)

    def rebuild(self, new):
        self.seen, self.new = {}, iter(new)
        for c in self.cells:
            self.st.mem[c] = self.go(self.st.mem.get(c))[1]

    def leaf(self, p, ty):
        if p.is_const() or any(x not in self.small.cols for x in p.atoms()) or any(not isinstance(c, int) for _, c in p.t):
            return p, p
        if self.new is not None:
            return "#", next(self.new)
        self.leaves.append((p, ty))
        return "#", p

    def go(self, v):
        if isinstance(v, Ref):
            pr, prs = [], []
            for x in v.pr:
                if x[0] == "i" and isinstance(x[1], Poly):
                    k, p = self.leaf(x[1], ("int", "usize", False))
                    pr.append(("i", p) + tuple(x[2:]))
                    prs.append(("i", k) + tuple(x[2:]))
                else:
                    pr.append(x)
                    prs.append(x)
            w = Ref(v.c, pr, v.m)
            if v.c in self.entry.mem:
                return ("ref", v.c, tuple(prs)), w
            if v.c in self.seen:
                return ("again", self.seen[v.c], tuple(prs)), w
            self.seen[v.c] = len(self.seen)
            k, x = self.go(self.st.mem.get(v.c))
            if self.new is not None and v.c in self.st.mem:
                self.st.mem[v.c] = x
            return ("new", tuple(prs), k), w
        if isinstance(v, (Adt, Tup, Arr, Clo)):
            ks, fs = zip(*[self.go(x) for x in v.f]) if v.f else ((), ())
            w = Adt(v.path, v.v, fs, v.ty) if isinstance(v, Adt) else Tup(fs) if isinstance(v, Tup) else Arr(fs, v.kind, v.ty) if isinstance(v, Arr) else Clo(v.key, fs)
            return (type(v).__name__, getattr(v, "path", None), getattr(v, "v", None), getattr(v, "key", None), ks), w
        if isinstance(v, Num):
            k, p = self.leaf(v.p, v.ty)
            return ("num", k), Num(p, v.ty)
        return repr(v), v


def atom_of(p):
    a = p.atoms()
    if len(a) != 1 or p != Poly.atom(next(iter(a))):
        raise Inconclusive(f"{p} is not a single number")
    return next(iter(a))


def table(ctx, name, key, e, outs, small, verdict, show=None):
    """verdict(o) -> (mask of the polygons for which the outcome is wrong, what was expected per index) or None"""
    where = ctx.where(e.prog.fns[key])
    bad = und = 0
    for o in outs:
        if o.kind == "back":
            raise Inconclusive(f"{name}: a loop was not unrolled")
        m = small.holds(o.st)
        if m is not None and not m.any():
            continue
        r = None if m is None else verdict(o)
        if r is None:
            und += 1
            continue
        w = m & r[0]
        if w.any():
            i = int(np.nonzero(w)[0][0])
            bad += 1
            got = f"panics ({o.val})" if o.kind == "panic" else "returns " + r[2]
            ctx.violation(f"{name}|{key}", where, f"{name}: on the ring {[tuple(map(int, v)) for v in small.xy[i]]}{show(i) if show else ''} a path {got} where {r[1](i)} is required",
                          {"function": key})
            break
    ctx.obligation(f"{name}", rows=len(outs), paths=len(outs), undecided=und, bad=bad, function=key)


def area2(rows):
    n = rows.shape[1]
    r = 0
    for k in range(n):
        a, b = rows[:, k], rows[:, (k + 1) % n]
        r = r + a[:, 0] * b[:, 1] - b[:, 0] * a[:, 1]
    return r


def place(rows, q):
    """-1 outside, 0 on the boundary, 1 inside, for each polygon and its query point"""
    n = rows.shape[1]
    on = np.zeros(len(rows), dtype=bool)
    odd = np.zeros(len(rows), dtype=bool)
    x, y = q[:, 0], q[:, 1]
    for k in range(n):
        a, b = rows[:, k], rows[:, (k + 1) % n]
        c = (b[:, 0] - a[:, 0]) * (y - a[:, 1]) - (b[:, 1] - a[:, 1]) * (x - a[:, 0])
        on |= (c == 0) & (np.minimum(a[:, 0], b[:, 0]) <= x) & (x <= np.maximum(a[:, 0], b[:, 0])) & (np.minimum(a[:, 1], b[:, 1]) <= y) & (y <= np.maximum(a[:, 1], b[:, 1]))
        up = b[:, 1] > y
        odd ^= ((a[:, 1] > y) != up) & ((c > 0) == up)
    return np.where(on, 0, np.where(odd, 1, -1))


def queried(rows, seed=7):
    """every polygon (in doubled coordinates) with its vertices, edge midpoints and other points of its neighbourhood"""
    rng = np.random.default_rng(seed)
    n = rows.shape[1]
    R, Q = [], []
    for k in range(n):
        a, b = 2 * rows[:, k], 2 * rows[:, (k + 1) % n]
        for q in (a, (a + b) // 2):
            R.append(2 * rows)
            Q.append(q)
    for k in range(4 * n):
        lo, hi = rows.min(axis=1) * 2 - 1, rows.max(axis=1) * 2 + 2
        R.append(2 * rows)
        if k % 2:       # level with a vertex
            q = rng.integers(lo, hi)
            i = rng.integers(0, n, len(rows))
            ax = k // 2 % 2
            q[:, ax] = 2 * rows[np.arange(len(rows)), i, ax]
        else:
            q = rng.integers(lo, hi)
        Q.append(q)
    return np.concatenate(R), np.concatenate(Q)


def convex(rows):
    ok = np.ones(len(rows), dtype=bool)
    n = rows.shape[1]
    for k in range(n):
        a, b, c = rows[:, k], rows[:, (k + 1) % n], rows[:, (k + 2) % n]
        ok &= (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) > (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])
    return rows[ok]
