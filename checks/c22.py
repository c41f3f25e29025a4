from polyg import *
from stubs import Stubs
from loops import loops_of
from spec import rows, facts_str, Dead
from poly import Poly, ONE
from engine import Inconclusive, State, some, none, OPTION
from values import *
from pipeline import elements
import re

LEVEL = "other"
EXPLANATION = ("The set of crossing edge pairs is decided in two layers. The slot store (allocate, free, list, draw) is run from an arbitrary state and every path is compared "
               "with its rule: an entry goes to a slot that is free or new, freeing a slot moves the last listed one into its place. On top of it, adding a pair, "
               "one round of removing all pairs of an edge, listing and drawing are run from an arbitrary set with the slot store as named slots; on every path the set of "
               "written cells and the value of each are compared with the doubly linked list rule (both lists of a pair, on every combination of neighbours).")
ASSUMPTIONS = ["stored pairs are of two different edges of two different vertices each (checked where they are stored)",
               "the lists of a reachable set are well formed (the rules checked here are the induction step)"]
IS = R + "data::intersection_set::"
SET, PAIR = IS + "IndexIntersectionSet", IS + "IndexIntersection"
SV = R + "utils::SparseVec"
IDX = ("core::ops::index::Index", "core::ops::index::IndexMut")


def fields(P, path):
    return {f["n"]: i for i, f in enumerate(P.adts[path]["variants"][0]["f"])}


class Store:
    """summary of the slot store: slots are numbers, the entries a table indexed by them"""

    def __init__(self, ctx, e):
        self.ctx, self.e, P = ctx, e, ctx.P
        self.i_arr = field_index(P, SV, lambda t: vec_of(t) is not None and vec_of(t)[0] == "param", "entries")
        self.i_sv = field_index(P, SET, is_adt(SV), "slot store")
        self.i_by = field_index(P, SET, lambda t: vec_of(t) is not None, "list heads")
        T_ = Stubs(ctx, e)
        T_.on(self.push, path=SV + "::push")
        T_.on(self.remove, path=SV + "::remove")
        T_.on(self.random, path=SV + "::random")
        for t in IDX:
            T_.on(self.index, trait=t, self_ty=is_adt(SV))
            T_.on(self.head, trait=t, self_ty=is_adt(SET))

    def arr(self, r):
        return r.c, tuple(r.pr) + ((".", self.i_arr),)

    def where(self, st, idx, tag="slots"):
        """the slot in terms of the slots named before (all equal or all different): a list of (slot, state)"""
        seen = st.tags.get(tag, ())
        out, s = [], st
        for q in seen:
            if q == idx:
                return [(q, st)]
        for q in seen:
            a = s.copy()
            if self.e.possible(a, idx - q) & ZER and self.e.add_sign(a, idx - q, ZER):
                out.append((q, a))
            s = s.copy()
            if not self.e.add_sign(s, idx - q, NEG | POS):
                return out
        s = s.copy()
        s.tags = dict(s.tags, **{tag: seen + (idx,)})
        out.append((idx, s))
        return out

    def index(self, eng, s, a, c, dty, fr, sp):
        cell, pr = self.arr(a[0])
        out = []
        for q, x in self.where(s, eng.deref(s, a[1]).p):
            self.wf(x, self.e.seq_read(x, eng.deref(x, Ref(cell, pr)), q))
            out.append((Ref(cell, pr + (("i", q),), True), x))
        return out

    def wf(self, s, v):
        """stored entries are well formed: each edge lists its lower vertex first"""
        for sl in slots_of(self.e, s, v):
            self.e.add_sign(s, sl["hi"] - sl["lo"], POS)

    @staticmethod
    def field_no(p):
        return None if p[0] != "." else p[1][0] if isinstance(p[1], tuple) else p[1]

    def member(self, s, store, q, v):
        """an entry found at the head of a list holds the edge of that list, in one of its slots"""
        sv = store.pr[:-1] if store.pr and self.field_no(store.pr[-1]) == self.i_sv else None
        for r in s.tags.get("lists", ()) if sv is not None else ():
            by = self.e.deref(s, Ref(store.c, tuple(sv) + ((".", self.i_by),)))
            h = self.e.deref(s, self.e.seq_read(s, by, r))
            if self.e.possible(s, num(self.e, s, self.e.project(s, self.e.project(s, h, ("v", 1)), (".", 0))) - q) == ZER:
                lo, hi = self.lists[repr(r)]
                out = []
                for sl in slots_of(self.e, s, v):
                    y = s.copy()
                    if self.e.add_sign(y, sl["lo"] - lo, ZER) and self.e.add_sign(y, sl["hi"] - hi, ZER):
                        out += [z for i, z in self.e.variants(y, sl["prev"]) if i == 0]
                return out
        return [s.copy()]

    def order(self, s, q, v):
        """lists run from the newest pair to the oldest: no pair is both before and after another"""
        e = self.e
        pay = lambda x: num(e, s, e.project(s, e.project(s, x, ("v", 1)), (".", 0)))
        sl = slots_of(e, s, v)
        newer = [pay(x["prev"]) for x in sl]
        older = [pay(x["next"]) for x in sl]
        for p in newer + older:
            e.add_sign(s, p - q, NEG | POS)
        for p in newer:
            for n in older:
                e.add_sign(s, p - n, NEG | POS)

    def edge(self, s, v):
        v = self.e.deref(s, v)
        f = fields(self.e.prog, IEDGE)
        return tuple(num(self.e, s, self.e.project(s, v, (".", f[n]))) for n in ("min", "max"))

    def head(self, eng, s, a, c, dty, fr, sp):
        lo, hi = self.edge(s, a[1])
        return [(Ref(a[0].c, tuple(a[0].pr) + ((".", self.i_by), ("i", self.key(s, lo, hi))), True), s)]

    def key(self, s, lo, hi):
        """the list of an edge, as a name made of its vertices"""
        k = Poly.atom(f"list({lo}|{hi})", USZ)
        self.lists[repr(k)] = (lo, hi)
        N = Names(s)
        for r in s.tags.get("lists", ()):
            if r != k:
                l2, h2 = self.lists[repr(r)]
                if N.same(lo, l2) and N.same(hi, h2):
                    return r
                self.e.add_sign(s, k - r, NEG | POS)
        if k not in s.tags.get("lists", ()):
            s.tags = dict(s.tags, lists=s.tags.get("lists", ()) + (k,))
        return k
    lists = {}

    def push(self, eng, s, a, c, dty, fr, sp):
        out = []
        cell, pr = self.arr(a[0])
        n = Poly.atom("new", USZ)
        for q, x in self.where(s, n):
            if q != n:
                continue
            x = x.copy()
            eng.store(x, cell, pr + (("i", n),), a[1])
            x.tags = dict(x.tags, pushed=x.tags.get("pushed", ()) + (a[1],))
            out.append((Num(n, USZ), x))
        return out

    def remove(self, eng, s, a, c, dty, fr, sp):
        cell, pr = self.arr(a[0])
        out = []
        for q, x in self.where(s, eng.deref(s, a[1]).p):
            v = eng.seq_read(x, eng.deref(x, Ref(cell, pr)), q)
            self.wf(x, v)
            self.order(x, q, v)
            for y in self.member(x, a[0], q, v):
                y.tags = dict(y.tags, removed=y.tags.get("removed", ()) + ((q, v),))
                out.append((v, y))
        return out

    def random(self, eng, s, a, c, dty, fr, sp):
        drawn = Opq("drawn", dty)
        return [(drawn, s)]


def entry_path(P):
    t = [P.field_ty(("adt", SET, ()), 0, i) for i in range(len(P.adts[SET]["variants"][0]["f"]))]
    t = [x for x in t if x is not None and x[0] == "adt" and x[1] == SV]
    return t[0][2][0]


def slots_of(e, s, v):
    """the two edge slots of an entry: vertices and links"""
    P = e.prog
    v = e.deref(s, v)
    out = []
    ty = v.ty if isinstance(v, Opq) else ("adt", v.path, ())
    n = len(P.adts[ty[1]]["variants"][0]["f"])
    if n != 2:
        raise Inconclusive("entry is not a pair of edges")
    for i in range(n):
        sl = e.deref(s, e.project(s, v, (".", i)))
        path = sl.path if isinstance(sl, Adt) else sl.ty[1]
        f = fields(P, path)
        if set(f) != {"vertex0", "vertex1", "next", "prev"}:
            raise Inconclusive("fields of an entry not recognised")
        g = {k: e.deref(s, e.project(s, sl, (".", j))) for k, j in f.items()}
        out.append({"lo": num(e, s, g["vertex0"]), "hi": num(e, s, g["vertex1"]), "next": g["next"], "prev": g["prev"]})
    return out


def chain(e, v):
    """(base name, stored positions) of a table value"""
    v0, out = v, []
    while isinstance(v, Opq):
        si = e.seqinfo.get(v.t)
        if not si:
            return v, out
        if si[0] != "st":
            raise Inconclusive(f"table changed by other means than storing: {si[0]}")
        out.append(si[2])
        v = si[1]
    raise Inconclusive("table of unexpected form")


class SetView:
    """the two tables of the set in one state"""

    def __init__(self, S, st, arg):
        e = S.e
        v = e.deref(st, arg)
        sv = e.deref(st, e.project(st, v, (".", S.i_sv)))
        self.S, self.e = S, e
        self.by = e.deref(st, e.project(st, v, (".", S.i_by)))
        self.arr = e.deref(st, e.project(st, sv, (".", S.i_arr)))
        self.by0, self.by_st = chain(e, self.by)
        self.arr0, self.arr_st = chain(e, self.arr)


def opt(o, v):
    """None, or the slot number an optional link holds"""
    e = o.eng
    v = e.deref(o.st, v)
    if o.variant(v) == 0:
        return None
    return num(e, o.st, e.project(o.st, e.project(o.st, v, ("v", 1)), (".", 0)))


def diff(p):
    """(x, y) when p is x - y for two names"""
    t = p.t
    if len(t) == 2 and all(len(m) == 1 for m, _ in t) and sorted(c for _, c in t) == [-1, 1]:
        return t[0][0][0], t[1][0][0]
    return None


class Names:
    """which names a path knows to be equal or different"""

    def __init__(self, st):
        self.up, self.ne = {}, []
        for k, m in st.facts.items():
            d = diff(k) if isinstance(k, Poly) else None
            if d and m == ZER:
                a, b = self.rep(d[0]), self.rep(d[1])
                if a != b:
                    self.up[max(a, b)] = min(a, b)
            elif d and not m & ZER:
                self.ne.append(d)
        self.ne = {frozenset((self.rep(a), self.rep(b))) for a, b in self.ne}

    def rep(self, x):
        while x in self.up:
            x = self.up[x]
        return x

    def same(self, a, b):
        d = a - b
        if d.is_const():
            return d.const_val() == 0
        x = diff(d)
        return bool(x) and self.rep(x[0]) == self.rep(x[1])

    def dead(self):
        return any(len(x) == 1 for x in self.ne)


def eq(o, a, b):
    d = a - b
    if d.is_const():
        return d.const_val() == 0
    x = diff(d)
    if x:
        N = Names(o.st)
        if N.dead():
            raise Dead()
        x = frozenset(map(N.rep, x))
        if len(x) == 1:
            return True
        if x in N.ne:
            return False
    return o.test(d, ZER)


def same_opt(o, a, b):
    if (a is None) != (b is None):
        return False
    return a is None or eq(o, a, b)


def edge_is(o, sl, ed):
    return eq(o, sl["lo"], ed[0]) and eq(o, sl["hi"], ed[1])


class Judge:
    """one path of an operation against the linked list rule"""

    def __init__(self, ctx, name, where):
        self.ctx, self.name, self.where, self.n = ctx, name, where, 0
        self.bads = {}

    def bad(self, key, msg, st):
        self.ctx.violation(f"{self.name}|{key}", self.where, msg, {"path": "; ".join(map(str, facts_str(st)))[:1200]})

    def tables(self, o, V, heads, entries, fresh=None):
        """heads: [(list key, expected optional slot)]; entries: [(slot, initial entry, [(edge, field, optional slot)])]"""
        e = o.eng
        known = [k for k, _ in heads]
        for p in V.by_st:
            if not any(eq(o, p, k) for k in known):
                self.bad("other list", "the list of an edge that does not take part is changed", o.st)
        for k, want in heads:
            got = opt(o, e.seq_read(o.st, V.by, k))
            if not same_opt(o, got, want):
                self.bad("list head", f"the list of an edge of the pair starts with {got} instead of {want}", o.st)
        for p in V.arr_st:
            if not any(eq(o, p, q) for q in [x for x, _, _ in entries] + list(fresh or ())):
                self.bad("other entry", "an entry that is not a neighbour of the pair is changed", o.st)
        done = []
        for q, init, ups in entries:
            same = [d for d in done if eq(o, d[0], q)]
            if same:
                same[0][2].extend(ups)
            else:
                done.append((q, init, list(ups)))
        for q, init, ups in done:
            a, b = slots_of(e, o.st, init), slots_of(e, o.st, e.seq_read(o.st, V.arr, q))
            hit = 0
            if a[0]["lo"] != a[1]["lo"] or a[0]["hi"] != a[1]["hi"]:
                if eq(o, a[0]["lo"], a[1]["lo"]) and eq(o, a[0]["hi"], a[1]["hi"]):
                    return False   # not a pair of different edges
            for x, y in zip(a, b):
                if not eq(o, x["lo"], y["lo"]) or not eq(o, x["hi"], y["hi"]):
                    self.bad("edge renamed", "the edges of a stored pair change", o.st)
                    continue
                for f in ("next", "prev"):
                    u = [w for ed, g, w in ups if g == f and edge_is(o, x, ed)]
                    if not differ(e, o.st, x[f], y[f]) and not u:
                        continue
                    want = u[0] if u else opt(o, x[f])
                    hit += len(u)
                    if not same_opt(o, opt(o, y[f]), want):
                        self.bad(f"link {f}", f"the {f} link of a neighbouring pair is {opt(o, y[f])}, it has to be {want}", o.st)
            if hit < len(ups):
                return False       # not a member of the list: excluded by the invariant
        return True


def edges_of_pair(S, o, v):
    e, P = S.e, S.e.prog
    f = fields(P, PAIR)
    v = e.deref(o.st, v)
    return [S.edge(o.st, e.project(o.st, v, (".", f[n]))) for n in ("min", "max")]


def start(ctx, name):
    e, st = ctx.engine(), State()
    e.max_steps = 6_000_000
    e.trip_by_exit, e.trip_states, e.max_paths = True, 3000, 20000
    S = Store(ctx, e)
    S.lists = {}
    k = ctx.one(SET + "::" + name)
    if k is None:
        return None
    b = ctx.P.body(k)
    args = [e.mkdeep(st, n, b["locals"][i + 1]) for i, n in enumerate(["set", "x", "y"][:len(ctx.P.fns[k]["inputs"])])]
    return k, e, S, st, args


def push(ctx):
    r = start(ctx, "push")
    if not r:
        return
    k, e, S, st, args = r
    outs = e.run(k, args, st)
    J = Judge(ctx, "push", ctx.where(ctx.P.fns[k]))
    n = 0
    new = Poly.atom("new", USZ)
    for out in outs:
        if out.kind == "back":
            raise Inconclusive("adding a pair goes through an open loop")
        if out.kind != "ret":
            continue

        if Names(out.st).dead():
            continue

        def f(o):
            E = edges_of_pair(S, o, args[1])
            if eq(o, E[0][0], E[1][0]) and eq(o, E[0][1], E[1][1]):
                return False
            V = SetView(S, o.st, args[0])
            if not out.st.tags.get("pushed") and not V.by_st and not V.arr_st:
                H = [opt(o, e.seq_read(o.st, V.by0, S.key(o.st, *x))) for x in E]
                if None not in H and eq(o, *H):
                    return False       # the newest pair of both edges is the given one already
            if len(out.st.tags.get("pushed", ())) != 1 or out.st.tags.get("removed"):
                J.bad("allocate", "adding a pair does not store exactly one entry", o.st)
                return True
            K = [S.key(o.st, *x) for x in E]
            H = [opt(o, e.seq_read(o.st, V.by0, x)) for x in K]
            b = slots_of(e, o.st, e.seq_read(o.st, V.arr, new))
            for ed, h in zip(E, H):
                m = [y for y in b if edge_is(o, y, ed)]
                if len(m) != 1:
                    J.bad("edges", "a new entry does not hold both edges of its pair", o.st)
                    continue
                if not same_opt(o, opt(o, m[0]["next"]), h):
                    J.bad("next", "a new entry is not linked to the pair that headed the list of its edge", o.st)
                if opt(o, m[0]["prev"]) is not None:
                    J.bad("prev", "a new entry at the head of a list has a predecessor", o.st)
            return J.tables(o, V, [(x, new) for x in K],
                            [(h, e.seq_read(o.st, V.arr0, h), [(ed, "prev", new)]) for ed, h in zip(E, H) if h is not None], [new])
        for ok, _ in rows(e, out.st, f):
            n += bool(ok)
    ctx.obligation("adding a pair", function=k, rows=n)
    if not n:
        ctx.inconclusive("adding a pair", k, "no complete path")


def remove_all(ctx):
    r = start(ctx, "remove_all")
    if not r:
        return
    k, e, S, st, args = r
    outs = e.run(k, args, st)
    J = Judge(ctx, "remove_all", ctx.where(ctx.P.fns[k]))
    n = m = 0
    for out in outs:
        if out.kind == "panic":
            continue
        rem = out.st.tags.get("removed", ())
        if out.kind == "ret":
            # the edge whose list was looked at last must have an empty one
            keys = [S.lists[repr(x)] for x in out.st.tags.get("lists", ())]
            arg = [x for x, kk in zip(out.st.tags.get("lists", ()), keys)]
            if rem:
                raise Inconclusive("entries are removed outside the loop")
            if not arg:
                J.bad("no list", "removing all pairs of an edge does not look at its list", out.st)
                continue
            V = SetView(S, out.st, args[0])
            for x, _ in rows(e, out.st, lambda o: opt(o, e.seq_read(o.st, V.by, arg[0]))):
                m += 1
                if x is not None:
                    J.bad("stops early", "removing all pairs of an edge ends while its list still has one", out.st)
            continue

        if Names(out.st).dead():
            continue

        def f(o):
            V = SetView(S, o.st, args[0])
            if len(rem) != 1 or out.st.tags.get("pushed"):
                J.bad("release", "one round of removing does not release exactly one entry", o.st)
                return True
            q, v = rem[0]
            mine = out.st.tags["lists"][0]
            sl = slots_of(e, o.st, v)
            E = [(x["lo"], x["hi"]) for x in sl]
            if eq(o, E[0][0], E[1][0]) and eq(o, E[0][1], E[1][1]):
                return False
            head = opt(o, e.seq_read(o.st, V.by0, mine))
            if head is None or not eq(o, head, q):
                J.bad("which", "the removed pair is not the first one of the edge's list", o.st)
            ed = S.lists[repr(mine)]
            # the list's first pair holds the edge and has no predecessor there
            own = [x for x in sl if edge_is(o, x, ed)]
            if len(own) != 1 or opt(o, own[0]["prev"]) is not None:
                return False
            K = [S.key(o.st, *x) for x in E]
            heads, ents = [], []
            for x, ee, kk in zip(sl, E, K):
                nx, pv = opt(o, x["next"]), opt(o, x["prev"])
                if pv is None:
                    heads.append((kk, nx))
                else:
                    ents.append((pv, e.seq_read(o.st, V.arr0, pv), [(ee, "next", nx)]))
                if nx is not None:
                    ents.append((nx, e.seq_read(o.st, V.arr0, nx), [(ee, "prev", pv)]))
            return J.tables(o, V, heads, ents, [q])
        for ok, _ in rows(e, out.st, f):
            n += bool(ok)
    ctx.obligation("removing the pairs of an edge", function=k, rows=n + m)
    if not n or not m:
        ctx.inconclusive("removing the pairs of an edge", k, f"{n} rounds and {m} ends understood")


def store_view(e, st, arg):
    """tables of a slot store: (listed slots, where each is listed, entries, free slots)"""
    P = e.prog
    v = e.deref(st, arg)
    ip = lambda pred: field_index(P, SV, pred, "slot store")
    sub = lambda x, i: e.deref(st, e.project(st, x, (".", i)))
    dn = sub(v, ip(lambda t: t is not None and t[0] == "adt" and vec_of(t) is None))
    path = dn.path if isinstance(dn, Adt) else dn.ty[1]
    f = fields(P, path)
    if set(f) != {"dense", "dense_rev"}:
        raise Inconclusive("fields of the slot list not recognised")
    arr = sub(v, ip(lambda t: vec_of(t) is not None and vec_of(t)[0] == "param"))
    free = sub(v, ip(lambda t: vec_of(t) is not None and vec_of(t)[0] == "int"))
    return sub(dn, f["dense"]), sub(dn, f["dense_rev"]), arr, free


def nat(o, e, x):
    return num(e, o.st, x)


def known(e, s, *vals):
    """names of values, none of which comes from a call that is not understood"""
    ks = [e.key(s, e.deref(s, v)) for v in vals]
    for k in ks:
        if re.search(r"(?<![A-Za-z0-9_])[a-z_]\w*#\d|\bhv\d", k):
            raise Inconclusive("value of a call that is not understood")
    return ks


def differ(e, s, a, b):
    a, b = known(e, s, a, b)
    return a != b


class StoreJudge:
    def __init__(self, ctx, name, key):
        self.ctx, self.name, self.where = ctx, name, ctx.where(ctx.P.fns[key])

    def bad(self, key, msg, st):
        self.ctx.violation(f"slots {self.name}|{key}", self.where, msg, {"path": "; ".join(map(str, facts_str(st)))[:1200]})

    def keeps(self, o, what, new, old, but, key, msg):
        """all cells of a table but the named ones stay as they are"""
        e = o.eng
        g = Poly.atom(f"any_{what}", USZ)
        s = o.st.copy()
        n = e.seq_len(s, old)
        ok = e.add_sign(s, g, POS | ZER) and e.add_sign(s, n - g, POS)
        for b in but:
            ok = ok and e.add_sign(s, g - b, NEG | POS)
        if not ok:
            return
        if e.possible(s, e.seq_len(s, new) - n) & NEG:
            if e.possible(s, e.seq_len(s, new) - n) == NEG:
                self.bad(key, msg + " (the table shrinks)", o.st)
                return
            raise Inconclusive(f"length of {what}")
        a, b = e.seq_read(s, new, g), e.seq_read(s, old, g)
        if differ(e, s, a, b):
            x, y = e.deref(s, a), e.deref(s, b)
            if isinstance(x, Num) and isinstance(y, Num) and e.possible(s, x.p - y.p) == ZER:
                return
            self.bad(key, msg, o.st)


def whole(e, el, x, lo, hi, n):
    """does the position of a pipeline range over 0..n?"""
    if lo == Poly.const(0) and e.possible(el.st, hi - n) == ZER:
        return True
    if e.possible(el.st, n - x) != POS or e.possible(el.st, lo) == POS:
        return False
    raise Inconclusive("range of a listing")


def store_fn(ctx, name):
    e, st = ctx.engine(), State()
    k = ctx.one(SV + "::" + name)
    if k is None:
        return None
    b = ctx.P.body(k)
    args = [e.mkdeep(st, n, b["locals"][i + 1]) for i, n in enumerate(["store", "x", "y"][:len(ctx.P.fns[k]["inputs"])])]
    before = store_view(e, st, args[0])
    return k, e, st, args, before, [o for o in e.run(k, args, st) if o.kind != "panic"]


def slots(ctx):
    r = store_fn(ctx, "push")
    if r:
        k, e, st, args, (dn, rv, arr, free), outs = r
        J = StoreJudge(ctx, "push", k)
        n = 0
        for out in outs:
            if out.kind != "ret":
                raise Inconclusive("storing an entry goes through an open loop")

            def f(o):
                idx = nat(o, e, out.val)
                dn2, rv2, arr2, free2 = store_view(e, o.st, args[0])
                nf, nf2 = e.seq_len(o.st, free), e.seq_len(o.st, free2)
                if e.key(o.st, free) == e.key(o.st, free2):
                    if e.possible(o.st, idx - e.seq_len(o.st, arr)) & NEG:
                        J.bad("slot in use", "an entry is stored in a slot that may be in use: it is neither new nor taken off the free slots", o.st)
                elif e.possible(o.st, nf - nf2 - ONE) == ZER:
                    J.keeps(o, "free", free, free2, [], "free slots", "taking a free slot changes the other free slots")
                    if not eq(o, idx, nat(o, e, e.seq_read(o.st, free, nf - ONE))) and e.possible(o.st, idx - e.seq_len(o.st, arr)) & NEG:
                        J.bad("slot in use", "an entry is stored in another slot than the one taken off the free slots", o.st)
                else:
                    raise Inconclusive("free slots changed in an unexpected way")
                L = e.seq_len(o.st, dn)
                if e.possible(o.st, e.seq_len(o.st, dn2) - L - ONE) != ZER or not eq(o, nat(o, e, e.seq_read(o.st, dn2, L)), idx):
                    J.bad("listed", "a stored entry is not added at the end of the listed slots", o.st)
                J.keeps(o, "listed", dn2, dn, [], "other listed", "storing an entry changes which other slots are listed")
                if not eq(o, nat(o, e, e.seq_read(o.st, rv2, idx)), L):
                    J.bad("place", "the place of a stored entry among the listed slots is not recorded", o.st)
                J.keeps(o, "place", rv2, rv, [idx], "other place", "storing an entry changes the recorded place of another one")
                if differ(e, o.st, e.seq_read(o.st, arr2, idx), args[1]):
                    J.bad("entry", "the stored entry is not the given one", o.st)
                J.keeps(o, "entry", arr2, arr, [idx], "other entry", "storing an entry changes another one")
                return True
            n += sum(1 for _ in rows(e, out.st, f))
        ctx.obligation("storing an entry", function=k, rows=n)
    r = store_fn(ctx, "remove")
    if r:
        k, e, st, args, (dn, rv, arr, free), outs = r
        J = StoreJudge(ctx, "remove", k)
        n = 0
        for out in outs:
            if out.kind != "ret":
                raise Inconclusive("removing an entry goes through an open loop")

            def f(o):
                x = nat(o, e, args[1])
                dn2, rv2, arr2, free2 = store_view(e, o.st, args[0])
                L = e.seq_len(o.st, dn)
                d, last = nat(o, e, e.seq_read(o.st, rv, x)), nat(o, e, e.seq_read(o.st, dn, L - ONE))
                if e.possible(o.st, e.seq_len(o.st, dn2) - L + ONE) != ZER:
                    J.bad("unlisted", "removing an entry does not take exactly one slot off the list", o.st)
                    return True
                # listed slots and recorded places agree: a slot is the last one listed iff its place is the last
                if eq(o, last, x) != eq(o, d, L - ONE):
                    raise Dead()
                if eq(o, last, x):
                    # the removed entry is the last one listed
                    J.keeps(o, "listed", dn, dn2, [], "listed", "removing the last listed entry changes the other listed slots")
                else:
                    if not eq(o, nat(o, e, e.seq_read(o.st, dn2, d)), last):
                        J.bad("moved", "the last listed slot does not take the place of the removed one", o.st)
                    J.keeps(o, "listed", dn, dn2, [d], "listed", "removing an entry changes the other listed slots")
                    if not eq(o, nat(o, e, e.seq_read(o.st, rv2, last)), d):
                        J.bad("place", "the recorded place of the slot moved on removal is not updated", o.st)
                J.keeps(o, "place", rv2, rv, [last, x], "other place", "removing an entry changes the recorded place of another one")
                J.keeps(o, "entry", arr2, arr, [x], "other entry", "removing an entry changes another one")
                if differ(e, o.st, out.val, e.seq_read(o.st, arr, x)):
                    J.bad("returned", "removing an entry does not return it", o.st)
                if e.key(o.st, free2) != e.key(o.st, free):
                    nf = e.seq_len(o.st, free)
                    if e.possible(o.st, e.seq_len(o.st, free2) - nf - ONE) != ZER or not eq(o, nat(o, e, e.seq_read(o.st, free2, nf)), x):
                        J.bad("free", "another slot than the removed one becomes free", o.st)
                    J.keeps(o, "free", free2, free, [], "free slots", "removing an entry changes the other free slots")
                return True
            n += sum(1 for _ in rows(e, out.st, f))
        ctx.obligation("removing an entry", function=k, rows=n)
    r = store_fn(ctx, "random")
    if r:
        k, e, st, args, (dn, rv, arr, free), outs = r
        J = StoreJudge(ctx, "random", k)
        n = 0
        for out in outs:
            if out.kind != "ret":
                raise Inconclusive("drawing goes through an open loop")
            L = e.seq_len(out.st, dn)
            for i, s in e.variants(out.st, out.val):
                n += 1
                if i == 0:
                    if e.possible(s, L) & POS:
                        J.bad("none", "drawing gives nothing although there are entries", s)
                    continue
                v = e.project(s, e.project(s, out.val, ("v", 1)), (".", 0))
                m = re.match(r"^(.*)\[(.*)\]$", e.key(s, e.deref(s, v)))
                if not m or m.group(1) != e.key(s, dn).strip("<>"):
                    raise Inconclusive("drawn slot not recognised")
                r_ = Poly.atom(m.group(2), USZ)
                if not m.group(2).startswith("rnd"):
                    J.bad("fixed", "the drawn slot is always the same one", s)
                elif not e.possible(s, r_) & ZER or not e.possible(s, L - r_ - ONE) & ZER or e.possible(s, L - r_) & (NEG | ZER):
                    J.bad("range", "drawing does not range over all listed slots", s)
        ctx.obligation("drawing a slot", function=k, rows=n)
    r = store_fn(ctx, "iter")
    if r:
        k, e, st, args, (dn, rv, arr, free), outs = r
        J = StoreJudge(ctx, "iter", k)
        n = 0
        for out in outs:
            if out.kind != "ret":
                continue
            for el in elements(e, out.st, out.val):
                n += 1
                if len(el.binders) != 1 or el.keep is not True:
                    raise Inconclusive("listing of unexpected form")
                x, lo, hi = el.binders[0]
                want = e.seq_read(el.st, arr, num(e, el.st, e.seq_read(el.st, dn, x)))
                if not whole(e, el, x, lo, hi, e.seq_len(el.st, dn)):
                    J.bad("range", "listing does not range over all listed slots", el.st)
                if differ(e, el.st, el.val, want):
                    J.bad("entry", "listing does not give the entry of each listed slot", el.st)
        ctx.obligation("listing entries", function=k, rows=n)


def reading(ctx):
    r = start(ctx, "random")
    if not r:
        return
    k, e, S, st, args = r
    outs = e.run(k, args, st)
    J = Judge(ctx, "random", ctx.where(ctx.P.fns[k]))
    n = 0
    for out in outs:
        if out.kind == "panic":
            continue
        if out.kind != "ret":
            raise Inconclusive("drawing a pair goes through an open loop")

        def f(o):
            drawn = Opq("drawn", ("adt", OPTION, (USZ,)))
            d = opt(o, drawn)
            got = o.variant(out.val)
            if (d is None) != (got == 0):
                J.bad("none", "a pair is drawn exactly when there is none", o.st)
            elif d is not None:
                V = SetView(S, o.st, args[0])
                pair(o, J, S, e.project(o.st, e.project(o.st, out.val, ("v", 1)), (".", 0)), e.seq_read(o.st, V.arr, d))
            return True
        n += sum(1 for _ in rows(e, out.st, f))
    ctx.obligation("drawing a pair", function=k, rows=n)
    r = start(ctx, "iter")
    if not r:
        return
    k, e, S, st, args = r
    for i in [x for x in e.fn_overrides if "::SparseVec" in x]:
        del e.fn_overrides[i]
    J = Judge(ctx, "iter", ctx.where(ctx.P.fns[k]))
    n = 0
    for out in e.run(k, args, st):
        if out.kind != "ret":
            continue
        V = SetView(S, out.st, args[0])
        dn = store_view(e, out.st, e.project(out.st, e.deref(out.st, args[0]), (".", S.i_sv)))[0]
        for el in elements(e, out.st, out.val):
            if len(el.binders) != 1 or el.keep is not True:
                raise Inconclusive("listing of unexpected form")
            x, lo, hi = el.binders[0]
            if not whole(e, el, x, lo, hi, e.seq_len(el.st, dn)):
                J.bad("range", "listing the pairs does not range over all of them", el.st)
            q = num(e, el.st, e.seq_read(el.st, dn, x))
            for ok, _ in rows(e, el.st, lambda o: pair(o, J, S, el.val, e.seq_read(o.st, V.arr, q))):
                n += 1
    ctx.obligation("listing the pairs", function=k, rows=n)


def pair(o, J, S, got, entry):
    """the pair made of the two edges of an entry"""
    e = o.eng
    got = edges_of_pair(S, o, got)
    sl = slots_of(e, o.st, entry)
    for x in sl:
        if not e.add_sign(o.st, x["hi"] - x["lo"], POS):
            raise Dead()
    sames = [[eq(o, g[0], x["lo"]) and eq(o, g[1], x["hi"]) for x in sl] for g in got]
    if not (sames[0][0] and sames[1][1] or sames[0][1] and sames[1][0]):
        J.bad("pair", "the pair does not consist of the two edges of its entry", o.st)
    return True


def keys(ctx):
    """different edges have different lists, within the table made for the number of vertices"""
    e, st = ctx.engine(), State()
    k = ctx.one(SET + "::new")
    if k is None:
        return
    b = ctx.P.body(k)
    outs = [o for o in e.run(k, [e.mkdeep(st, "n", b["locals"][1])], st) if o.kind == "ret"]
    S = Store(ctx, e)
    if len(outs) != 1:
        raise Inconclusive("constructor of the set")
    v = outs[0].val
    by = e.deref(outs[0].st, e.project(outs[0].st, v, (".", S.i_by)))
    size = e.seq_len(outs[0].st, by)
    forms = {}
    for kx in [x for t in IDX for x in ctx.find(trait=t, self_ty=is_adt(SET))]:
        e2, s2 = ctx.engine(), State()
        bb = ctx.P.body(kx)
        cell = e2.mkdeep(s2, "set", bb["locals"][1])
        ed = e2.mkdeep(s2, "edge", bb["locals"][2])
        rs = [o for o in e2.run(kx, [cell, ed], s2) if o.kind == "ret"]
        ks = set()
        for o in rs:
            if not isinstance(o.val, Ref) or not o.val.pr or o.val.pr[-1][0] != "i":
                raise Inconclusive("list lookup does not index a table")
            ks.add(o.val.pr[-1][1])
        if len(ks) != 1:
            raise Inconclusive("list lookup depends on the edge's order")
        kp = ks.pop()
        forms.setdefault(str(kp), kx)
        lo, hi = Store(ctx, e2).edge(s2, ed)
        nm = [a for a in kp.atoms() if a not in lo.atoms() | hi.atoms()]
        n = 0
        for N in (2, 3, 4, 5, 7, 10):
            used = {}
            sz = size.subst({a: Poly.const(N) for a in size.atoms()})
            for i in range(N):
                for j in range(i + 1, N):
                    p = kp.subst({**{a: Poly.const(i) for a in lo.atoms()}, **{a: Poly.const(j) for a in hi.atoms()}, **{a: Poly.const(N) for a in nm}})
                    if not p.is_const() or not sz.is_const():
                        raise Inconclusive("list number of unexpected form")
                    c = p.const_val()
                    n += 1
                    if c in used:
                        ctx.violation("keys|shared", ctx.where(ctx.P.fns[kx]), f"two edges share one list: {used[c]} and {(i, j)} of {N} vertices", {})
                    if not 0 <= c < sz.const_val():
                        ctx.violation("keys|range", ctx.where(ctx.P.fns[kx]), f"edge {(i, j)} of {N} vertices has no list", {})
                    used[c] = (i, j)
        ctx.obligation("one list per edge", function=kx, rows=n, number=str(kp), size=str(size))
    if len(forms) > 1:
        ctx.violation("keys|differ", ctx.where(ctx.P.fns[kx]), "reading and changing the list of an edge use different lists", {"numbers": " / ".join(forms)})


def run(ctx):
    for part in (slots, keys, push, remove_all, reading):
        try:
            part(ctx)
        except Inconclusive as x:
            ctx.inconclusive(part.__name__, part.__name__, str(x))
