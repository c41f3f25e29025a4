"""Decision-table comparison: every path partition of a function against a declarative spec.

The analysed function yields partitions (facts -> result).  The spec is a decision procedure over
the same predicates (signs of polynomial normal forms, variants, booleans); it is evaluated under
each partition's facts, splitting the partition when the spec needs a predicate the code did not
look at.  A row where the two results differ is a candidate; it is reported only when the row is
inhabited by an entry of the configuration catalogue (finite list of small integer point
configurations, which realises order types), so that algebraically impossible sign vectors never
raise an alarm.
"""
import numpy as np
from poly import Poly, ZERO
from values import *
from engine import Outcome, State, Inconclusive, in_time, ORD, OPTION, RESULT


class Need(Exception):
    pass


class Oracle:
    """answers the spec's questions from a partition's facts; `script` fixes the open ones"""

    def __init__(self, eng, st, script):
        self.eng, self.st, self.script, self.pos = eng, st.copy(), list(script), 0
        self.choices = []

    def _pick(self, n):
        if self.pos < len(self.script):
            i = self.script[self.pos]
        else:
            i = 0
        self.pos += 1
        self.choices.append((i, n))
        return i

    def sign(self, p):
        alts = self.eng.signs(self.st, p)
        if not alts:
            raise Dead()
        i = 0 if len(alts) == 1 else self._pick(len(alts))
        s, self.st = alts[i]
        return {NEG: -1, ZER: 0, POS: 1}[s]

    def test(self, p, mask):
        alts = self.eng.test(self.st, p, mask)
        if not alts:
            raise Dead()
        i = 0 if len(alts) == 1 else self._pick(len(alts))
        b, self.st = alts[i]
        return b

    def bool(self, v):
        alts = self.eng.ask_bool(self.st, v)
        i = 0 if len(alts) == 1 else self._pick(len(alts))
        b, self.st = alts[i]
        return b

    def variant(self, v):
        v = self.eng.deref(self.st, v)
        alts = self.eng.variants(self.st, v)
        i = 0 if len(alts) == 1 else self._pick(len(alts))
        b, self.st = alts[i]
        return b

    def vname(self, v):
        """variant name of an enum value"""
        v = self.eng.deref(self.st, v)
        path = v.path if isinstance(v, Adt) else strip(v.ty)[1]
        return self.eng.prog.adts[path]["variants"][self.variant(v)]["n"]

    def field(self, v, i, variant=None):
        v = self.eng.deref(self.st, v)
        if variant is not None:
            v = self.eng.project(self.st, v, ("v", variant))
        return self.eng.project(self.st, v, (".", i))

    def same(self, a, b):
        return self.eng.key(self.st, self.eng.deref(self.st, a)) == self.eng.key(self.st, self.eng.deref(self.st, b))


class Dead(Exception):
    pass


def strip(t):
    while t is not None and t[0] == "ref":
        t = t[1]
    return t


def rows(eng, st, f, limit=200000):
    """all (result, state) of f under st, splitting on undecided questions"""
    script = []
    n = 0
    while True:
        o = Oracle(eng, st, script)
        try:
            r = f(o)
            yield r, o.st
        except Dead:
            pass
        n += 1
        if n > limit:
            raise Inconclusive("spec row budget")
        ch = o.choices
        while ch and ch[-1][0] == ch[-1][1] - 1:
            ch.pop()
        if not ch:
            return
        script = [c for c, _ in ch]
        script[-1] += 1


# ------------------------------------------------------------------------------ configurations
class Catalogue:
    """arrays of small integer configurations for named scalar atoms"""
    free, scalars, lo, derived = None, frozenset(), 0, {}

    def __init__(self, scalars, lo=0, hi=3, maxn=1_200_000, seed=1, rnd=60000, span=40):
        n = len(scalars)
        k = hi - lo + 1
        total = k ** n
        rng = np.random.default_rng(seed)
        if total <= maxn:
            idx = np.arange(total)
            cols = []
            for _ in scalars:
                cols.append((idx % k + lo).astype(np.int64))
                idx = idx // k
        else:
            cols = [rng.integers(lo, hi + 1, maxn) for _ in scalars]
        self.val = {}
        for s, c in zip(scalars, cols):
            self.val[s] = np.concatenate([c, rng.integers(-span, span + 1, rnd)])
        self.n = len(next(iter(self.val.values()))) if scalars else 1
        self.exhaustive = total <= maxn
        self.cache = {}
        self.scalars, self.lo = frozenset(scalars), lo

    def ignore(self, rx):
        """facts about atoms matching rx are satisfiable whatever the configuration (array bounds, vertex numbers)"""
        import re
        self.free = re.compile(rx)
        return self

    def define(self, atom, arr):
        self.val[atom] = arr

    def rank(self, atom, x, y):
        self.val[atom] = self.val[x] * 1000 + self.val[y]
        self.derived = {**self.derived, atom: (x, y)}

    def ev(self, p, idx=None):
        """signs of a polynomial over the configurations (those numbered idx)"""
        r = self.cache.get(p)
        if r is not None:
            return r if idx is None else r[idx]
        r = self.signs(p, (lambda a: self.val[a]) if idx is None else (lambda a: self.val[a][idx]), self.n if idx is None else len(idx))
        if idx is None and len(self.cache) < 4000:
            self.cache[p] = r
        return r

    def signs(self, p, val, n):
        r = np.zeros(n, dtype=np.int64)
        for m, c in p.t:
            if not isinstance(c, int):
                raise KeyError("fraction")
            v = np.full(n, c, dtype=np.int64)
            for a in m:
                v = v * val(a)
            r = r + v
        return np.where(r < 0, NEG, np.where(r > 0, POS, ZER)).astype(np.int8)

    def witness(self, facts, prem=()):
        """index of a configuration satisfying all facts; (None, unknown atoms)"""
        todo, unk = [], []
        for k, m in facts.items():
            if not isinstance(k, Poly):
                continue
            ats = k.atoms()
            if self.free is not None and any(self.free.search(a) for a in ats if a not in self.val):
                continue
            if any(a not in self.val for a in ats):
                unk.append(repr(k))
                continue
            todo.append((k, m))
        # cheap facts first: the others are evaluated on what is left
        todo.sort(key=lambda x: (x[0] not in self.cache, len(x[0].t)))
        return self.pick(todo, unk)

    def moved(self, todo):
        """the catalogue moved and stretched to the scale of the constants the facts compare with: a path taken only by
        coordinates beyond a bound is represented there"""
        cs = sorted({abs(c) for k, m in todo for mono, c in k.t if not mono and isinstance(c, int) and 3 <= abs(c) <= 1 << 31})
        if not cs or any(a not in self.scalars and a not in self.derived for k, m in todo for a in k.atoms()):
            return
        deg = max(len(mono) for k, m in todo for mono, c in k.t)
        cs = cs[:2] + cs[-2:] if len(cs) > 4 else cs
        names = sorted(self.scalars)
        rng = np.random.default_rng(7)
        for how in ("shift", "stretch", "mix", "mix"):
            val = {}
            for n in names:
                v = self.val[n]
                if how == "stretch":
                    v = v * (cs[-1] + 1)
                elif how == "shift":
                    v = v + cs[-1]
                else:
                    v = v + rng.choice(np.array([0] + cs + ([-c for c in cs] if self.lo < 0 else []), dtype=np.int64), self.n)
                val[n] = v
            top = max(int(np.abs(v).max()) for v in val.values())
            if top ** deg > 1 << 58:
                continue
            for a, (x, y) in self.derived.items():
                if x in val and y in val:
                    val[a] = val[x] * (4 * top + 1) + val[y]
            c = Catalogue.__new__(Catalogue)
            c.val, c.n, c.cache, c.scalars, c.lo = val, self.n, {}, frozenset(), self.lo
            if self.lo >= 0:
                ok = np.ones(self.n, dtype=bool)
                for v in val.values():
                    ok &= (v >= 0) & (v < 1 << 32)
                ok = np.nonzero(ok)[0]
                c.val, c.n = {n: v[ok] for n, v in val.items()}, len(ok)
            yield c

    def pick(self, todo, unk):
        idx = None
        for k, m in todo:
            try:
                s = self.ev(k, idx if idx is not None and len(idx) * 3 < self.n else None)
            except KeyError:
                unk.append(repr(k))
                continue
            if idx is not None and len(s) != len(idx):
                s = s[idx]
            keep = (s & m) != 0
            idx = np.nonzero(keep)[0] if idx is None else idx[keep]
            if not len(idx):
                for c in self.moved(todo):
                    i, u = c.pick(todo, unk)
                    if i is not None:
                        return (c, i), u
                return None, unk
        return (0 if idx is None else int(idx[0])), unk

    def show(self, i, names):
        if isinstance(i, tuple):
            return i[0].show(i[1], names)
        return {n: int(self.val[n][i]) for n in names if n in self.val}


# ------------------------------------------------------------------------------ table comparison
class Table:
    def __init__(self, ctx, name, key, args, st, spec, cat=None, show=(), expect_panic=False, eng=None, strict_unknown=True):
        """spec(o, outcome) -> None when the outcome is right, else a string describing what was expected"""
        self.__dict__.update(locals())

    def outcomes(self):
        return self.eng.run(self.key, self.args, self.st)

    def run(self):
        ctx, eng = self.ctx, self.eng
        f = eng.prog.fns[self.key]
        where = ctx.where(f)
        try:
            outs = self.outcomes()
        except Inconclusive as e:
            ctx.inconclusive(self.name, self.key, str(e))
            return
        nrows = ninf = nbad = nunk = 0
        for o in outs:
            if o.kind == "back" and not isinstance(self, Rows):
                continue
            if nbad:
                break
            bad = []
            try:
                in_time()
                for r, st in rows(eng, o.st, lambda orc: self.spec(orc, o)):
                    nrows += 1
                    if r is None:
                        continue
                    bad.append((r, st))
            except Inconclusive as e:
                ctx.inconclusive(self.name, self.key, str(e))
                return
            for r, st in bad:
                if nbad:
                    break
                w = None
                if self.cat is not None:
                    i, unk = self.cat.witness(st.facts)
                    if i is None:
                        ninf += 1
                        continue
                    if unk and self.strict_unknown:
                        nunk += 1
                        ctx.note(f"{self.name}: mismatching row depends on uninterpreted facts {unk[:3]}: expected {r}")
                        continue
                    w = self.cat.show(i, self.show)
                nbad += 1
                if nbad == 1:
                    ctx.violation(f"{self.name}|{self.key}", where,
                                  f"{self.name}: a path of {f['path']} returns {describe(eng, st, o)} where the specification gives {r}",
                                  {"path_facts": facts_str(st), "witness": w, "function": self.key})
        ctx.obligation(self.name, rows=nrows, paths=len(outs), infeasible=ninf, undecided=nunk, bad=nbad, function=self.key)
        if len(outs) == 0 or nrows == 0:
            ctx.violation(f"{self.name}|no-paths", where, f"{self.name}: no path of {f['path']} reaches a return", {})


class Compose(Table):
    """a table over a composition of calls: prog(step, st) yields (value, state); step(key, args, st) runs one call
    and ends the composition with a panic outcome where the call panics"""

    def outcomes(self):
        out = []
        eng = self.eng
        eng.steps = 0

        def step(key, args, st):
            for o in eng.exec_fn(key, args, st, 1):
                if o.kind == "ret":
                    yield o.val, o.st
                elif o.kind == "panic":
                    out.append(o)
        for v, st in self.args(step, self.st):
            out.append(Outcome("ret", v, st))
        return out


class Rows(Table):
    """a table over already computed outcomes (iteration paths or exits of a loop)"""

    def outcomes(self):
        return self.args


def describe(eng, st, o):
    if o.kind == "panic":
        return f"panic({o.val})"
    if o.kind == "back":
        return "one more iteration"
    try:
        return eng.key(st, o.val)
    except Inconclusive:
        return repr(o.val)


def facts_str(st, limit=40):
    nm = {1: "<0", 2: "=0", 3: "<=0", 4: ">0", 5: "!=0", 6: ">=0", 7: "any"}
    out = []
    for k, v in list(st.facts.items())[:limit]:
        if isinstance(k, Poly):
            out.append(f"{k} {nm[v]}")
        else:
            out.append(f"{k[0]}({k[1]}) = {v}")
    return out

