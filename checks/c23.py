import re
from geo import *
from polyg import *
from stubs import Stubs, far
from loops import loops_of
from engine import Inconclusive, State
from ctx import nogen

LEVEL = "other"
EXPLANATION = ("The repair step of the two-opt routine is analysed over an algebra of cursors (successor, predecessor, vertex number, position are value numbers) with the geometric "
               "predicates, the crossing set and the ring edits as named effects: every path shows which edges leave the polygon, which enter it, which pairs are forgotten and "
               "which are looked for. The loops that collect crossing pairs are inductions over the boundary edges; the constructors are decision tables."
               " A vertex may be judged straight only by its own two neighbours, and the comparator that arranges a bundle of equal directions must not be constant or decide by distance alone.")
ASSUMPTIONS = ["orientation, segment containment and intersection mean what C01 and C06 decide; direct, the crossing set and the ring edits what C11, C22 and C10 decide",
               "the edges named by the crossing set are edges of the polygon"]
TO = R + "algorithms::polygonization::two_opt::"
SET = R + "data::intersection_set::IndexIntersectionSet"
ISECT = R + "data::intersection_set::IndexIntersection"
ALL = NEG | ZER | POS
SEG, EP = R + "data::line_segment::LineSegmentView", R + "data::line_segment::EndPoint"


def strip_(t):
    while t and t[0] == "ref":
        t = t[1]
    return t


def ad(t):
    t = strip_(t)
    return t[1] if t and t[0] == "adt" else None


class World:
    """cursors, vertex numbers and edges as terms"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.e, self.st = ctx.engine(), State()
        e = self.e
        self.S = Stubs(ctx, e)
        self.edges = {}      # atom name -> (a, b) end points of an undirected edge
        self.S.orient()
        ov = self.S.on
        for m in ("next", "prev"):
            ov(self.step(m), path=CURSOR + "::" + m)
            ov(self.move(m), path=CURSOR + "::move_" + m)
        ov(self.point_id, path=CURSOR + "::point_id")
        ov(self.cur_point, path=CURSOR + "::point")
        ov(self.cur_point, trait="core::ops::deref::Deref", name="deref", self_ty=lambda t: ad(t) == CURSOR)
        ov(self.bent, path=CURSOR + "::orientation")
        ov(self.straight, path=CURSOR + "::is_colinear")
        ov(self.to, path=CURSOR + "::to")
        ov(self.boundary, path=POLY + "::iter_boundary")
        ov(self.cursor, path=POLY + "::cursor")
        ov(self.pt, path=POLY + "::point")
        ov(self.direct, path=POLY + "::direct")
        ov(self.edge_new, path=IEDGE + "::new")
        ov(self.it_next, trait="core::iter::traits::iterator::Iterator", name="next", self_ty=lambda t: ad(t) == CITER)
        for m in ("vertices_reverse", "vertices_join"):
            ov(self.edit(m), path=POLY + "::" + m)
        ov(self.remove, path=SET + "::remove_all")
        ov(self.push, path=SET + "::push")
        ov(self.segment, path=SEG + "::new")
        ov(self.contains, path=SEG + "::contains")

    # ---- terms
    def t(self, st, v):
        v = self.e.deref(st, v)
        return self.S.intern(v.t if isinstance(v, Opq) else self.e.key(st, v))

    def cur(self, name):
        return Opq(name, CUR_TY)

    def nb(self, m, c):
        inv = {"next": "prev(", "prev": "next("}[m]
        f = self.S.full(c)
        if f.startswith(inv):
            return self.S.intern(f[len(inv):-1])
        return self.S.intern(f"{m}({c})")

    def pid(self, c):
        f = self.S.full(c)
        mm = re.fullmatch(r"cur\((.*)\)", f)
        nm = mm.group(1) if mm else f"pid({c})"
        return wrap(PTID, Poly.atom(self.S.intern(nm), USZ))

    def pname(self, st, v):
        return repr(num(self.e, st, v))

    # ---- overrides
    def step(self, m):
        def f(eng, st, a, c, dty, fr, sp):
            return [(self.cur(self.nb(m, self.t(st, a[0]))), st)]
        return f

    def move(self, m):
        def f(eng, st, a, c, dty, fr, sp):
            st = st.copy()
            v = self.cur(self.nb(m, self.t(st, a[0])))
            eng.store(st, a[0].c, a[0].pr, v)
            return [(Tup([]), st)]
        return f

    def point_id(self, eng, st, a, c, dty, fr, sp):
        return [(self.pid(self.t(st, a[0])), st)]

    def cur_point(self, eng, st, a, c, dty, fr, sp):
        nm = self.S.intern(f"pt({self.t(st, a[0])})")
        return [(Ref(eng.new_cell(st, eng.mkdeep(st, nm, PT_TY)), (), False), st)]

    def pt(self, eng, st, a, c, dty, fr, sp):
        nm = self.S.intern(f"pt#{self.pname(st, a[1])}")
        return [(Ref(eng.new_cell(st, eng.mkdeep(st, nm, PT_TY)), (), False), st)]

    def bent(self, eng, st, a, c, dty, fr, sp):
        n = self.t(st, a[0])
        p = [self.S.intern(f"pt({x})") for x in (self.nb("prev", n), n, self.nb("next", n))]
        return [(self.S.orientation(s), x) for s, x in self.S.turn(st, *p)]

    def straight(self, eng, st, a, c, dty, fr, sp):
        n = self.t(st, a[0])
        p = [self.S.intern(f"pt({x})") for x in (self.nb("prev", n), n, self.nb("next", n))]
        if len(set(p)) < 3:
            return [(True, st)]
        return eng.test(st, Poly.atom(self.S.intern(f"turn[{'|'.join(sorted(p))}]")), ZER)

    def to(self, eng, st, a, c, dty, fr, sp):
        b = eng.deref(st, a[1])
        if not isinstance(b, Adt):
            raise Inconclusive("range end not recognised")
        kind = self.P.adts[b.path]["variants"][b.v]["n"] if b.path in self.P.adts else {0: "Included", 1: "Excluded", 2: "Unbounded"}[b.v]
        end = self.t(st, b.f[0]) if b.f else ""
        return [(self.iterator(st, f"range[{self.t(st, a[0])};{kind};{end}]", dty), st)]

    def segment(self, eng, st, a, c, dty, fr, sp):
        return [(Adt(SEG, 0, list(a), dty), st)]

    def ends_of(self, st, v):
        """(name, exclusive) of the two ends of a segment, the names in order"""
        v = self.e.deref(st, v)
        if not isinstance(v, Adt) or v.path != SEG:
            raise Inconclusive("segment not recognised")
        names = [x["n"] for x in self.P.adts[EP]["variants"]]
        out = []
        for x in v.f:
            x = self.e.deref(st, x)
            if not isinstance(x, Adt) or x.path != EP:
                raise Inconclusive("segment end not recognised")
            out.append((self.S.point(st, x.f[0]), names[x.v] == "Exclusive"))
        return sorted(out)

    def contains(self, eng, st, a, c, dty, fr, sp):
        ends = ";".join(f"{n}{'-' if x else '+'}" for n, x in self.ends_of(st, a[0]))
        nm = self.S.intern(f"in[{ends};{self.S.point(st, a[1])}]")
        return [(bool(i), z) for i, z in self.S.choice(st, nm, 2)]

    def boundary(self, eng, st, a, c, dty, fr, sp):
        st = st.copy()
        n = st.tags.get("its", 0)
        st.tags = dict(st.tags, its=n + 1)
        return [(self.iterator(st, f"boundary[{st.tags.get('edits', 0)}.{n}]", dty), st)]

    def iterator(self, st, name, dty):
        return Opq(self.S.intern(name), dty)

    def it_next(self, eng, st, a, c, dty, fr, sp):
        it = self.t(st, a[0])
        s1, s0 = st.copy(), st.copy()
        w = st.tags.get("walk", {})
        n = w.get(it, 0)
        nm = self.S.intern(f"each{n or ''}[{it}]")
        s1.add(("walk", it, n), True)
        s0.add(("walk", it, n), False)
        s1.tags = dict(s1.tags, walk=dict(w, **{it: n + 1}))
        s0.tags = dict(s0.tags, walk=dict(w, **{it: n + 1}))
        opt = lambda v, vs: Adt("core::option::Option", v, vs, dty)
        return [(opt(1, [self.cur(nm)]), s1), (opt(0, []), s0)]

    def cursor(self, eng, st, a, c, dty, fr, sp):
        p = self.pname(st, a[1])
        f = self.S.full(p)
        m = re.fullmatch(r"pid\((.*)\)", f)
        return [(self.cur(self.S.intern(m.group(1)) if m else self.S.intern(f"cur({p})")), st)]

    def ename(self, st, v):
        """name of an undirected edge value"""
        v = eng_d(self.e, st, v)
        if isinstance(v, Opq):
            return self.S.intern(v.t)
        lo, hi = (self.pname(st, x) for x in self.S.fields(v, "min", "max"))
        for x in (lo, hi):
            m = re.fullmatch(r"(?:lo|hi)\{(.*)\}", self.S.full(x))
            if m:
                return self.S.intern("{" + m.group(1) + "}")
        return self.S.intern("{" + "|".join(sorted((self.S.full(lo), self.S.full(hi)))) + "}")

    def edge(self, x, y):
        """the undirected edge between two vertex numbers"""
        x, y = sorted((self.S.full(x), self.S.full(y)))
        names = [f["n"] for f in self.P.adts[IEDGE]["variants"][0]["f"]]
        lo, hi = (wrap(PTID, Poly.atom(self.S.intern(f"{w}{{{x}|{y}}}"), USZ)) for w in ("lo", "hi"))
        return Adt(IEDGE, 0, [{"min": lo, "max": hi}[n] for n in names], ("adt", IEDGE, ()))

    def edge_new(self, eng, st, a, c, dty, fr, sp):
        return [(self.edge(*(self.pname(st, v) for v in a)), st)]

    def ends(self, name):
        """cursors at the two ends of a named edge"""
        x = self.S.full(name)[1:-1].split("|")
        if len(x) != 2 or not all(y.startswith("pid(") for y in x):
            return None
        return [self.S.intern(y[4:-1]) for y in x]

    def direct(self, eng, st, a, c, dty, fr, sp):
        n = self.ename(st, a[1])
        ends = self.ends(n)
        src = [x for x, y in (ends, ends[::-1]) if y == self.nb("next", x)] if ends else []
        if len(src) != 1:
            raise Inconclusive("a directed edge was not recognised")
        names = [f["n"] for f in self.P.adts[DEDGE]["variants"][0]["f"]]
        d = {"src": self.pid(src[0]), "dst": self.pid(self.nb("next", src[0]))}
        return [(Adt(DEDGE, 0, [d[x] for x in names], ("adt", DEDGE, ())), st)]

    def edit(self, m):
        def f(eng, st, a, c, dty, fr, sp):
            st = st.copy()
            st.event((m, self.t(st, a[1]), self.t(st, a[2])))
            st.tags = dict(st.tags, edits=st.tags.get("edits", 0) + 1)
            return [(Tup([]), st)]
        return f

    def remove(self, eng, st, a, c, dty, fr, sp):
        st = st.copy()
        st.event(("forget", self.ename(st, a[1])))
        return [(Tup([]), st)]

    def push(self, eng, st, a, c, dty, fr, sp):
        st = st.copy()
        st.event(("found", self.e.key(st, self.e.deref(st, a[1]))))
        return [(Tup([]), st)]


def eng_d(e, st, v):
    return e.deref(st, v)


def by_types(ctx, ins, out=None):
    """functions with the given argument types (None: anything), wherever they are and whatever they are called"""
    r = []
    for k, f in ctx.P.fns.items():
        if not f.get("primary") or f["kind"] == "Closure" or f.get("impl_trait") or not f.get("inputs"):
            continue
        if [ad(t) for t in f["inputs"]] == ins and (out is None or out(f["output"])):
            r.append(k)
    return r



class Opt:
    """an optional value"""

    @staticmethod
    def of(i, v, dty):
        return Adt("core::option::Option", i, [v] if i else [], dty)


def meet_stub(W):
    """crossing of two edges: one decision per unordered pair of edges"""
    ks = by_types(W.ctx, [POLY, IEDGE, IEDGE], lambda t: ad(t) == "core::option::Option")

    def f(eng, s, a, c, dty, fr, sp):
        x, y = sorted(W.S.full(W.ename(s, a[i])) for i in (1, 2))
        nm = W.S.intern(f"meet[{x};{y}]")
        out = []
        for i, z in W.S.choice(s, nm, 2):
            z = z.copy() if z is s else z
            z.tags = dict(z.tags, meets=z.tags.get("meets", ()) + ((W.S.full(x), W.S.full(y), i, s.tags.get("edits", 0)),))
            out.append((Opt.of(i, Opq(f"pair[{x};{y}]", ("adt", ISECT, ())), dty), z))
        return out
    for k in ks:
        W.e.fn_overrides[k] = f
    if len(ks) != 1:
        raise Inconclusive(f"the crossing test of two edges was not recognised ({len(ks)} candidates)")
    return ks[0]


EACH = re.compile(r"\{pid\((?:next\()?(each\d*\[.*?\])\)?\)\|pid\((?:next\(|prev\()?\1\)?\)\}$")


def each_of(name):
    """the boundary walk an edge name stands for, None for other edges"""
    m = re.fullmatch(r"\{pid\((.*)\)\|pid\((.*)\)\}", name)
    if not m:
        return None
    for x, y in (m.groups(), m.groups()[::-1]):
        if x.startswith("each") and "boundary[" in x and y in (f"next({x})", f"prev({x})"):
            return x
    return None


def found(W, o):
    return {W.S.full(ev[1]) for ev in o.st.events() if ev[0] == "found"}


def edge_name(x, y):
    x, y = sorted((f"pid({x})", f"pid({y})"))
    return "{" + x + "|" + y + "}"


def nx(c, m="next"):
    inv = {"next": "prev(", "prev": "next("}[m]
    return c[len(inv):-1] if c.startswith(inv) else f"{m}({c})"


def edge_order(W, o, x, y):
    """possible signs of the order of two named edges (smaller end first) on a path"""
    at = lambda w, n: Poly.atom(W.S.intern(w + n), USZ)
    lo = W.e.possible(o.st, at("lo", x) - at("lo", y))
    hi = W.e.possible(o.st, at("hi", x) - at("hi", y))
    return (lo & (NEG | POS)) | (hi if lo & ZER else 0)


def walked(o, it):
    """the answers the walk gave on this path, in order"""
    w = sorted((k[2], v) for k, v in o.st.facts.items() if isinstance(k, tuple) and k[0] == "walk" and k[1] == it)
    return [v for _, v in w]


def untangle(ctx):
    ks = by_types(ctx, [POLY, SET, ISECT])
    if len(ks) != 1:
        raise Inconclusive(f"the repair step was not recognised ({len(ks)} candidates)")
    key = ks[0]
    where = where_of(ctx, key)
    W = World(ctx)
    e, S = W.e, W.S
    meet_stub(W)
    b = ctx.P.body(key)
    pr = lambda c: W.edge(*(repr(num(e, W.st, W.pid(x))) for x in (c, f"next({c})")))
    i_names = [f["n"] for f in ctx.P.adts[ISECT]["variants"][0]["f"]]
    isect = Adt(ISECT, 0, [pr({"min": "a", "max": "b"}[n]) for n in i_names], ("adt", ISECT, ()))
    args = [e.mkdeep(W.st, n, b["locals"][i + 1]) for i, n in enumerate(("poly", "set"))] + [isect]
    outs = e.run(key, args, W.st)
    loops = loops_of(outs)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"two-opt repair: {m}", d or {})
    pts = lambda *c: [S.intern(f"pt({x})") for x in c]
    compared, edits, n_meet = {}, {}, 0
    began = {S.full(k[1]) for o in outs for k in o.st.facts if isinstance(k, tuple) and k[0] == "walk" and S.full(k[1]).startswith("boundary[1.")}
    for o in outs:
        evs = o.st.events()
        ed = [ev for ev in evs if ev[0] in ("vertices_reverse", "vertices_join")]
        if not ed:
            if o.kind == "ret":
                bad("nothing", "a recorded crossing is left as it is")
            continue
        if len(ed) > 1:
            raise Inconclusive("more than one edit of the ring")
        kind, p, q = ed[0]
        p, q = S.full(p), S.full(q)
        if not (p.endswith(".position") and q.endswith(".position")):
            raise Inconclusive("positions of the edit not recognised")
        p, q = p[:-len(".position")], q[:-len(".position")]
        t1 = e.possible(o.st, Poly.atom(S.intern(f"turn[{'|'.join(sorted(pts('a', 'next(a)', 'b')))}]")))
        t2 = e.possible(o.st, Poly.atom(S.intern(f"turn[{'|'.join(sorted(pts('a', 'next(a)', 'next(b)')))}]")))
        u1 = e.possible(o.st, Poly.atom(S.intern(f"turn[{'|'.join(sorted(pts('b', 'next(b)', 'a')))}]")))
        u2 = e.possible(o.st, Poly.atom(S.intern(f"turn[{'|'.join(sorted(pts('b', 'next(b)', 'next(a)')))}]")))
        line = t1 == ZER and t2 == ZER or u1 == ZER and u2 == ZER
        off = not t1 & ZER or not t2 & ZER or not u1 & ZER or not u2 & ZER
        known = min(t1, t2, u1, u2) != ALL
        # turns that relate the two edges but are taken at other vertices than their end points
        ends = set(pts("a", nx("a"), "b", nx("b")))
        stray = []
        for k in o.st.facts:
            for a_ in k.atoms() if isinstance(k, Poly) else ():
                f_ = S.full(a_)
                if f_.startswith("turn[") and not known:
                    tri = f_[5:-1].split("|")
                    of = [set(re.findall(r"\b[ab]\b", x)) for x in tri]
                    if all(len(x) == 1 for x in of) and set().union(*of) == {"a", "b"} and not all(S.intern(x) in ends for x in tri):
                        stray.append(tri)
        if kind == "vertices_reverse":
            if p == nx("a") and q == "b" or p == nx("b") and q == "a":
                A, B = nx(p, "prev"), q
            else:
                bad("reverse", f"the stretch from {p} to {q} is reversed, which does not join the two crossing edges the other way round (a is the first edge's start, b the second's)")
                continue
            if stray:
                bad("line", "whether the two edges are on one line is told from vertices that are not their end points", {"turns": stray[:2]})
            if line or known and not off:
                bad("parallel", "two edges on one line are uncrossed, which does not shorten the boundary")
            removed = {edge_name(A, nx(A)), edge_name(B, nx(B))}
            inserted = {edge_name(A, B), edge_name(nx(A), nx(B))}
            what = "uncrossing"
        else:
            E, K = p, q
            if stray:
                bad("line", "whether the two edges are on one line is told from vertices that are not their end points", {"turns": stray[:2]})
            if off:
                bad("skew", "a vertex is moved although the two edges are not on one line")
            elif known and not line:
                bad("skew", "a vertex may be moved although the two edges are not on one line")
            hold = None
            for k, v in o.st.facts.items():
                if isinstance(k, tuple) and k[0] == "choice":
                    m = re.fullmatch(r"in\[(.*)([-+]);(.*)([-+]);(.*)\]", S.full(k[1]))
                    if m and v == 1 and {m.group(1), m.group(3)} == {f"pt({E})", f"pt({nx(E)})"} and m.group(5) == f"pt({K})":
                        hold = m.group(2) + m.group(4)
            if hold is None:
                bad("elsewhere", "a vertex is moved into an edge that was not found to contain it")
            elif hold != "--":
                bad("endpoint", "a vertex may be moved into an edge that only ends at it")
            removed = {edge_name(nx(K, "prev"), K), edge_name(K, nx(K)), edge_name(E, nx(E))}
            inserted = {edge_name(nx(K, "prev"), nx(K)), edge_name(E, K), edge_name(K, nx(E))}
            what = "move"
        forgot = {S.full(ev[1]) for ev in evs if ev[0] == "forget"}
        for x in sorted(removed - forgot):
            bad(f"forget-{what}", f"crossings of an edge that leaves the polygon stay recorded after the {what}", {"edge": x, "forgotten": sorted(forgot)})
        for x in sorted(forgot - removed):
            bad(f"lost-{what}", f"crossings of an edge that stays in the polygon are dropped by the {what}", {"edge": x})
        edits.setdefault(what, [set(), set()])[0] |= inserted
        comp = edits[what][1]
        here = set()
        for x, y, i, ep in o.st.tags.get("meets", ()):
            ex, ey = each_of(x), each_of(y)
            if not ex and not ey:
                continue
            if ep == 0 or any("boundary[0." in z for z in (ex, ey) if z):
                bad(f"early-{what}", f"crossings of the new edges are looked for in the polygon before the {what}")
                continue
            n_meet += 1
            for z, ez, w in ((x, ex, y), (y, ey, x)):
                if not ez:
                    comp.add((what, z))
                    here.add(z)
                    if z in removed and z not in inserted:
                        bad(f"gone-{what}", f"crossings of an edge that is no longer in the polygon are looked for after the {what}", {"edge": z})
                    elif z in inserted and edge_order(W, o, z, w) & ZER:
                        bad(f"self-{what}", f"after the {what} a new edge is compared with itself", {"edge": z})
            f = f"<pair[{x};{y}]>" in found(W, o)
            if i and not f:
                bad(f"missed-{what}", f"a crossing of a new edge is found after the {what} but not recorded", {"edges": [x, y]})
            if not i and f:
                bad(f"invented-{what}", f"a pair of edges that does not cross is recorded after the {what}", {"edges": [x, y]})
        # walks over the boundary after the edit
        for it in {k[1] for k in o.st.facts if isinstance(k, tuple) and k[0] == "walk" and S.full(k[1]).startswith("boundary[1")}:
            if True in walked(o, it):
                nm = "each[" + S.full(it) + "]"
                mine = edge_name(nm, nx(nm))
                if o.kind == "ret" or o.kind == "back" and False in walked(o, it):
                    bad(f"stop-{what}", f"after the {what} the search for crossings stops before all edges are compared")
                elif o.kind == "back" and not any(mine in m[:2] for m in o.st.tags.get("meets", ())):
                    if not any(edge_order(W, o, mine, z) == ZER for z in inserted):
                        bad(f"skip-{what}", f"after the {what} some edges of the polygon are not compared with a new edge")
        # every walk begun on a path that returns has been told that no edge is left
        if o.kind == "ret":
            for nm in sorted(began):
                i = int(nm[len("boundary[1."):-1])
                if i < o.st.tags.get("its", 0) and walked(o, S.intern(nm))[-1:] != [False]:
                    bad(f"stop-{what}", f"after the {what} the search for crossings stops before all edges are compared")
    for what, (ins, comp) in sorted(edits.items()):
        got = {z for _, z in comp}
        if not got:
            if n_meet == 0 and not any(o.st.tags.get("meets") for o in outs):
                bad(f"recheck-{what}", f"crossings of the edges the {what} inserts are not looked for")
            else:
                raise Inconclusive("the search for crossings of new edges was not recognised")
            continue
        for z in sorted(ins - got):
            # more than one candidate element: compare modulo the loop that found it
            bad(f"recheck-{what}", f"crossings of an edge the {what} inserts are not looked for", {"edge": z, "compared": sorted(got)[:8]})
        ctx.obligation(f"two-opt {what}: forgotten and inserted edges, crossings of the inserted edges", inserted=len(ins), function=key)
    kinks(ctx, W, key, outs, loops, bad)


def ends_of_run(W, outs, loops):
    """name -> (edge start, 'first'|'last') of the walks along straight stretches"""
    res, wrong = {}, []
    for info, os in loops:
        back = [o for o in os if o.kind == "back" and o.info is info]
        for n in sorted({p for o in back for p in W.e.phi_updates(info, o.st)}):
            ups = [W.e.phi_updates(info, o.st).get(n) for o in back]
            if any(u is None or not isinstance(u[0], Opq) or not isinstance(u[1], Opq) for u in ups):
                continue
            init = {W.S.full(u[0].t) for u in ups}
            after = {W.S.full(u[1].t) for u in ups}
            if len(init) != 1 or len(after) != 1:
                continue
            i, a = init.pop(), after.pop()
            d = {f"prev({n})": "first", f"next({n})": "last"}.get(a)
            if d is None:
                continue
            tp = sorted(W.S.intern(f"pt({x})") for x in (f"prev({n})", n, f"next({n})"))
            masks = {W.e.possible(o.st, Poly.atom(W.S.intern(f"turn[{'|'.join(tp)}]"))) for o in back}
            res[n] = (i, d, masks)
    return res


def kinks(ctx, W, key, outs, loops, bad):
    e, S = W.e, W.S
    runs = ends_of_run(W, outs, loops)
    rng = {}
    for o in outs:
        for k in o.st.facts:
            if isinstance(k, tuple) and k[0] == "walk":
                m = re.fullmatch(r"range\[(.*);(\w+);(.*)\]", S.full(k[1]))
                if m:
                    rng[S.full(k[1])] = m.groups()
    if not rng:
        raise Inconclusive("the walks along the common line were not recognised")
    want = {("a", "first"): "a", ("a", "last"): None}
    seen = {"Included": set(), "Excluded": set()}
    for n, (i, d, masks) in runs.items():
        if masks != {ZER}:
            if all(not m & ZER for m in masks):
                bad("run", "the walk along the common line goes over bends")
            else:
                raise Inconclusive("the walks along the common line were not recognised")
    for nm, (lo, kind, hi) in rng.items():
        if lo not in runs or hi not in runs:
            raise Inconclusive("the walks along the common line were not recognised")
        (li, ld, _), (hi_, hd, _) = runs[lo], runs[hi]
        base = li
        if ld != "first" or hd != "last":
            bad("direction", "a walk along the common line does not go from its first to its last vertex")
        elif base not in ("a", "b"):
            raise Inconclusive("start of the walk along the common line not recognised")
        elif hi_ != nx(base):
            bad("range", "a walk along the common line does not end beyond the edge it starts from", {"from": li, "to": hi_})
        else:
            seen.setdefault(kind, set()).add(base)
    for kind, txt in (("Included", "bends"), ("Excluded", "edges")):
        pass
    pushes, n = set(), 0
    for o in outs:
        if o.kind != "back":
            continue
        for k in [k for k in o.st.facts if isinstance(k, tuple) and k[0] == "walk" and S.full(k[1]) in rng]:
            it = S.full(k[1])
            if walked(o, k[1])[-1] is not True:
                continue
            c = f"each[{it}]"
            ps = [ev for ev in o.st.events() if ev[0] == "push"]
            mine = [ev for ev in ps if isinstance(W.e.deref(o.st, ev[2]), Opq) and S.full(W.e.deref(o.st, ev[2]).t) == c]
            tp = sorted(S.intern(f"pt({x})") for x in (f"prev({c})", c, f"next({c})"))
            t = e.possible(o.st, Poly.atom(S.intern(f"turn[{'|'.join(tp)}]")))
            ins = None
            for kk, v in o.st.facts.items():
                if isinstance(kk, tuple) and kk[0] == "choice":
                    m = re.fullmatch(r"in\[(.*)[-+];(.*)[-+];(.*)\]", S.full(kk[1]))
                    if m and {m.group(1), m.group(2)} == {f"pt(prev({c}))", f"pt(next({c}))"} and m.group(3) == f"pt({c})":
                        ins = v
            if mine:
                n += 1
                pushes.add(it)
                if t & ZER and ins != 0:
                    bad("kink", "a vertex between its neighbours on the line is treated as one whose removal shortens the boundary")
            elif t != ALL or ins is not None:
                n += 1
                pushes.add(it)
                if not t & ZER or ins == 0:
                    bad("corner", "a vertex whose removal shortens the boundary is passed over")
    if not n:
        raise Inconclusive("the choice of the vertex to move was not recognised")
    bends = {r for nm, (lo, kind, hi) in rng.items() for r in [runs[lo][0]] if nm in pushes and kind == "Included"}
    short = {runs[lo][0] for nm, (lo, kind, hi) in rng.items() if nm in pushes and kind != "Included"}
    for x in sorted({"a", "b"} - bends):
        bad("bends", "the far end of a walk along the common line is not considered as the vertex to move" if x in short else "the vertices on one of the two edges' lines are not considered for moving")
    hosts = {runs[lo][0] for nm, (lo, kind, hi) in rng.items() if nm not in pushes}
    for x in sorted({"a", "b"} - hosts):
        bad("hosts", "the edges on one of the two edges' lines are not considered for taking the moved vertex")
    ctx.obligation("two-opt move: which vertices can be moved, and along which stretch", paths=n, walks=len(rng), function=key)


def where_of(ctx, key):
    return ctx.where(ctx.P.fns[key])


def crossing_test(ctx):
    W = World(ctx)
    e, S = W.e, W.S
    ks = by_types(ctx, [POLY, IEDGE, IEDGE], lambda t: ad(t) == "core::option::Option")
    if len(ks) != 1:
        raise Inconclusive(f"the crossing test of two edges was not recognised ({len(ks)} candidates)")
    key = ks[0]
    where = where_of(ctx, key)

    def cut(eng, st, a, c, dty, fr, sp):
        ends = tuple(tuple(W.ends_of(st, x)) for x in a)
        out = []
        for i, z in S.choice(st, S.intern("cut[%s;%s]" % ends), 2):
            z = z.copy()
            z.tags = dict(z.tags, cut=z.tags.get("cut", ()) + ((ends, i),))
            out.append((Opt.of(i, Opq("where", ("any",)), dty), z))
        return out
    S.on(cut, trait=R + "intersection::Intersects", name="intersect", self_ty=lambda t: ad(t) == SEG)
    b = ctx.P.body(key)
    names = [f["n"] for f in ctx.P.adts[IEDGE]["variants"][0]["f"]]
    ids = {x: Poly.atom(x, USZ) for x in ("a0", "a1", "b0", "b1")}
    mk = lambda x: Adt(IEDGE, 0, [wrap(PTID, ids[x + {"min": "0", "max": "1"}[n]]) for n in names], ("adt", IEDGE, ()))
    st = W.st
    for x in "ab":
        st.add(*canon(ids[x + "0"] - ids[x + "1"], NEG))
    poly = e.mkdeep(st, "poly", b["locals"][1])
    outs = e.run(key, [poly, mk("a"), mk("b")], st)
    n = 0
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"crossing edges: {m}", d or {})
    for o in outs:
        if o.kind != "ret":
            continue
        v = e.deref(o.st, o.val)
        if not isinstance(v, Adt):
            raise Inconclusive("answer of the crossing test not recognised")
        cuts = o.st.tags.get("cut", ())
        if len(cuts) != 1:
            raise Inconclusive("segments of the crossing test not recognised")
        (ends, hit), = cuts
        n += 1
        if bool(v.v) != bool(hit):
            bad("answer", "edges are reported as crossing when the segments between their vertices do not meet, or the other way round")
            continue
        sides = []
        for x, seg in zip("ab", sorted(ends)):
            sides.append({nm: ex for nm, ex in seg})
        flat = {nm: ex for seg in ends for nm, ex in seg}
        if set(flat) != {f"pt#{x}" for x in ids} or not any({nm for nm, _ in seg} == {"pt#a0", "pt#a1"} for seg in ends):
            bad("segments", "the segments compared are not the two edges", {"segments": str(ends)})
            continue
        for x in ids:
            other = "ba"["ab".index(x[0])]
            masks = [e.possible(o.st, ids[x] - ids[other + z]) for z in "01"]
            shared = any(m == ZER for m in masks)
            apart = all(not m & ZER for m in masks)
            if flat[f"pt#{x}"] and not shared:
                bad("exclusive", "an end point that is not shared does not count as part of its edge, so edges touching there are not reported")
            if not flat[f"pt#{x}"] and not apart:
                bad("inclusive", "the vertex shared by two edges counts as a crossing of them")
        if v.v and v.f:
            w = e.deref(o.st, v.f[0])
            if isinstance(w, Adt) and w.path == ISECT:
                got = {W.ename(o.st, x) for x in w.f}
                if got != {"{a0|a1}", "{b0|b1}"}:
                    bad("pair", "the pair reported is not the pair of edges asked about", {"pair": sorted(got)})
    if not n:
        raise Inconclusive("the crossing test was not followed")
    ctx.obligation("two-opt: crossing test of two edges (shared end points excluded)", paths=n, function=key)


def canon(p, mask):
    c, s = p.canon()
    if s < 0:
        mask = (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)
    return c, mask



def result_stub(W, name):
    """a fallible step: one decision, its call recorded"""
    def f(eng, s, a, c, dty, fr, sp):
        out = []
        for i, z in W.S.choice(s, name, 2):
            z = z.copy()
            z.event((name,) + tuple(W.S.full(str(eng.key(z, eng.deref(z, x)))) for x in a))
            out.append((Adt("core::result::Result", i, [Opq(name + " error", ("any",)) if i else Opq(name + " done", ("any",))], dty), z))
        return out
    return f


def error_name(ctx, v):
    vs = ctx.P.adts.get(R + "Error")
    return vs["variants"][v.v]["n"] if vs and isinstance(v, Adt) and v.path == R + "Error" else None


def outcome(ctx, e, o):
    """('ok', value) | ('err', name of the error or of the failing step) of a Result"""
    v = e.deref(o.st, o.val)
    if not isinstance(v, Adt) or not v.path.endswith("result::Result"):
        raise Inconclusive("result not recognised")
    w = e.deref(o.st, v.f[0])
    if v.v == 0:
        return "ok", w
    return "err", error_name(ctx, w) or (w.t if isinstance(w, Opq) else str(w))


def public(ctx, name):
    ks = [k for k, f in ctx.P.fns.items() if f.get("primary") and f["kind"] != "Closure" and f["name"] == name and nogen(f["path"]).startswith(R + "algorithms::polygonization")]
    if len(ks) != 1:
        ctx.missing(f"{name}: not found", len(ks))
        raise Inconclusive(f"{name} not found")
    return ks[0]


def resolve(ctx):
    key = public(ctx, "resolve_self_intersections")
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    meet_stub(W)
    ks = by_types(ctx, [POLY, SET, ISECT])

    def repair(eng, s, a, c, dty, fr, sp):
        s = s.copy()
        s.event(("repair", eng.key(s, eng.deref(s, a[2]))))
        return [(Tup([]), s)]
    for k in ks:
        e.fn_overrides[k] = repair
    if len(ks) != 1:
        raise Inconclusive("the repair step was not recognised")

    def draw(eng, s, a, c, dty, fr, sp):
        out = []
        for i, z in S.choice(s, "draw", 2):
            z = z.copy()
            z.event(("drawn", i))
            out.append((Opt.of(i, Opq("drawn pair", ("adt", ISECT, ())), dty), z))
        return out
    S.on(draw, path=SET + "::random")
    S.on(lambda eng, s, a, c, dty, fr, sp: [(Opq("crossings", dty), s)], path=SET + "::new")
    S.on(result_stub(W, "orient"), path=POLY + "::ensure_ccw")
    S.on(lambda eng, s, a, c, dty, fr, sp: [(eng.mkdeep(s, "number of vertices", USZ), s)], trait="core::iter::traits::exact_size::ExactSizeIterator", name="len",
         self_ty=lambda t: ad(t) == CITER)
    b = P.body(key)
    args = [e.mkdeep(W.st, n, b["locals"][i + 1]) for i, n in enumerate(("poly", "rng"))]
    outs = e.run(key, args, W.st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"two-opt: {m}", d or {})
    pairs, oks, flat_err, n = {}, 0, 0, 0
    its = set()
    for o in outs:
        for x, y, i, ep in o.st.tags.get("meets", ()):
            ex, ey = each_of(x), each_of(y)
            if ex and ey and ex != ey:
                its.add(tuple(sorted((ex, ey))))
    if len(its) != 1:
        raise Inconclusive("the collection of the crossing pairs was not recognised")
    xa, xb = its.pop()
    walks = [re.match(r"each\d*\[(.*)\]$", x).group(1) for x in (xa, xb)]
    ea, eb = (edge_name(x, nx(x)) for x in (xa, xb))
    meet, skip = 0, 0
    for o in outs:
        evs = o.st.events()
        ms = [m for m in o.st.tags.get("meets", ()) if set(m[:2]) == {ea, eb}]
        ord_ = edge_order(W, o, ea, eb)
        w = [walked(o, S.intern(x)) for x in walks]
        for m in ms:
            n += 1
            meet |= ord_
            f = f"<pair[{m[0]};{m[1]}]>" in found(W, o)
            if m[2] and not f:
                bad("missed", "a crossing of two edges is not recorded")
            if not m[2] and f:
                bad("invented", "edges that do not cross are recorded as a crossing")
            if ord_ & ZER:
                bad("self", "an edge is compared with itself")
        if o.kind == "back" and not ms and w[0][-1:] == [True] and w[1][-1:] == [True]:
            skip |= ord_
        if o.kind == "back":
            for x, y in (w, w[::-1]):
                it = walks[1] if x is w[0] else walks[0]
                m = re.match(r"boundary\[0\.(\d+)\]$", it)
                if x[-1:] == [True] and not y and not ms and m and int(m.group(1)) < o.st.tags.get("its", 0):
                    bad("stop", "the search for crossings stops before all pairs of edges are compared")
        if o.kind == "ret":
            kind, v = outcome(ctx, e, o)
            if any(True in x for x in w):
                bad("stop", "the search for crossings stops before all pairs of edges are compared")
            drawn = [ev[1] for ev in evs if ev[0] == "drawn"]
            if (kind == "ok" or drawn) and not any(x[-1:] == [False] for x in w):
                bad("stop", "the search for crossings stops before all pairs of edges are compared")
            if kind == "ok":
                oks += 1
                if not drawn or drawn[-1] != 0:
                    bad("unfinished", "the polygon is returned while crossings are still recorded")
                if "orient" not in [ev[0] for ev in evs]:
                    bad("orientation", "the polygon is returned without making its boundary run counterclockwise")
                elif o.st.facts.get(("choice", "orient")) == 1:
                    bad("swallowed", "a polygon that cannot be oriented is returned as if it were valid")
            elif v == "InsufficientVertices":
                flat_err += 1
                if any(isinstance(k, tuple) and k[0] == "walk" and v2 is True for k, v2 in o.st.facts.items()):
                    bad("refused", "a boundary is refused although not all of its vertices were looked at")
        for ev in evs:
            if ev[0] == "repair" and "drawn pair" not in str(ev[1]):
                bad("other", "another pair than the recorded one is repaired")
        if o.kind == "back" and ("drawn", 1) in evs and not any(ev[0] == "repair" for ev in evs):
            bad("idle", "a recorded crossing is not repaired")
    if skip & NEG and skip & POS:
        bad("pairs", "for some pairs of edges no crossing is looked for")
    if not oks:
        bad("never", "no polygon is ever returned")
    if not flat_err:
        bad("straight", "a boundary on one straight line is not refused")
    ctx.obligation("two-opt: all pairs of edges compared, repaired until none is left, then oriented", paths=n, function=key)


def two_opt(ctx):
    key = public(ctx, "two_opt_moves")
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    S.on(result_stub(W, "resolve"), path=R + "algorithms::polygonization::two_opt::resolve_self_intersections")
    S.on(result_stub(W, "new"), path=POLY + "::new")
    S.on(result_stub(W, "validate"), path=POLY + "::validate")
    b = P.body(key)
    args = [e.mkdeep(W.st, n, b["locals"][i + 1]) for i, n in enumerate(("pts", "rng"))]
    outs = e.run(key, args, W.st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"two-opt polygon: {m}", d or {})
    n3 = Poly.atom("len(pts)", USZ) - Poly.const(3)
    kinds, small = set(), 0
    for o in outs:
        evs = [ev for ev in o.st.events() if ev[0] == "resolve"]
        few = e.possible(o.st, n3)
        if o.kind == "ret":
            kind, v = outcome(ctx, e, o)
            kinds.add(v if kind == "err" else "ok")
            if kind == "ok":
                if not evs and 1 in [o.st.facts.get(("choice", x)) for x in ("new", "validate")]:
                    bad("swallowed", "an invalid boundary is returned as a polygon")
                elif not evs and 0 in [o.st.facts.get(("choice", x)) for x in ("new", "validate")]:
                    pass                    # the points' own order is valid
                elif not evs:
                    bad("raw", "the points are returned as a polygon without repairing crossings")
                elif o.st.facts.get(("choice", "resolve")) == 1:
                    bad("swallowed", "points that cannot be connected are returned as if they were a valid polygon")
                if few & NEG:
                    small |= few
                    bad("few", "fewer than three points are returned as a polygon")
            elif v == "InsufficientVertices" and few & (ZER | POS) and not evs:
                bad("many", "three points or more are refused as too few")
            elif v in ("new error", "validate error") and not evs and few & POS:
                bad("refused", "points whose own order is not a valid polygon are refused without repairing it")
            elif v == "resolve error" and o.st.facts.get(("choice", "resolve")) != 1:
                bad("error", "an error is returned without one")
        if evs and "pts" not in evs[0][1]:
            bad("points", "the polygon repaired is not the one over the given points")
    if "ok" not in kinds:
        bad("never", "no polygon is ever returned")
    ins = {ev[1] for o in outs for ev in o.st.events() if ev[0] == "call" and ev[1].endswith("::insert")}
    if "DuplicatePoints" not in kinds:
        bad("duplicates", "repeated points are not refused")
    if ins:
        for o in outs:
            evs = [ev for ev in o.st.events() if ev[0] == "call" and ev[1].endswith("::insert")]
            b_ = [v for k, v in o.st.facts.items() if isinstance(k, tuple) and k[0] == "bool" and str(k[1]).startswith("insert")]
            if o.kind == "ret" and outcome(ctx, e, o)[1] == "DuplicatePoints" and True in b_:
                bad("distinct", "distinct points are refused as repeated")
            if o.kind == "back" and evs and False in b_ and not any(ev[0] == "resolve" for ev in o.st.events()):
                bad("twice", "a repeated point is accepted")
    ctx.obligation("two-opt polygon: refusals, and the errors of the repair passed on", paths=len(outs), function=key)


def comparator_of(e, o):
    """(kind, sequence, closure value, state) of the sorting steps on a path"""
    return [(ev[1], ev[2], ev[3], o.st) for ev in o.st.events() if ev[0] == "perm"]


def star(ctx):
    from c25 import closure_rows, sort_rule, chain
    key = public(ctx, "new_star_polygon")
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    S.angle_order()
    S.distance_order()
    checked(W)
    made = []
    inner = next(f for k, f in e.fn_overrides.items() if nogen(P.fns[k]["path"]) == POLY + "::new")
    inner_raw = next(f for k, f in e.fn_overrides.items() if nogen(P.fns[k]["path"]) == POLY + "::new_unchecked")

    def seen(g):
        def f(eng, s, a, c, dty, fr, sp):
            made.append((a[0], s))
            return g(eng, s, a, c, dty, fr, sp)
        return f
    S.on(seen(inner), path=POLY + "::new")
    S.on(seen(inner_raw), path=POLY + "::new_unchecked")
    b = P.body(key)
    st = W.st
    args = [e.mkdeep(st, "pts", b["locals"][1]), Ref(e.new_cell(st, e.mkdeep(st, "o", PT_TY)), (), False)]
    outs = e.run(key, args, st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"star polygon: {m}", d or {})
    validated(ctx, e, outs, bad)
    if not made:
        raise Inconclusive("construction of the polygon not recognised")
    for v, s in made:
        ops, src = chain(e, v)
        if not (isinstance(src, Opq) and src.t == "pts"):
            raise Inconclusive("the points of the polygon were not recognised")
        perms = [ev for ev in s.events() if ev[0] == "perm"]
        if not perms:
            bad("sort", "the points are not put in order around the centre")
            continue
        if len(perms) != 1 or perms[0][3] is None or any(x[0] == "rev" for x in ops):
            raise Inconclusive("order of the points not recognised")
        msg = star_order(ctx, e, S, perms[0][3], s)
        if msg:
            bad("order", msg)
    ctx.obligation("star polygon: points in angular order around the centre, checked by the validating constructor", paths=len(outs), function=key)


def star_order(ctx, e, S, clo, st):
    from c25 import closure_rows, ORDN
    rows = list(closure_rows(ctx, e, S, st, clo))
    if len(rows) == 1 and rows[0].kind == "ret" and isinstance(e.deref(rows[0].st, rows[0].val), Adt):
        return "the comparison of two points gives the same answer for all points"
    for o in rows:
        if o.kind == "panic":
            continue
        v = e.deref(o.st, o.val)
        if o.kind != "ret" or not isinstance(v, Adt):
            raise Inconclusive("comparison result not recognised")
        a = S.order_mask(o.st, "angle", ["o"], "A", "B")
        if a == ALL:
            heads = {S.full(x).split("[")[0] for z in rows for f in z.st.facts if isinstance(f, Poly) for x in f.atoms() if "A" in S.full(x) or "B" in S.full(x)}
            if heads == {"dist"}:
                return "the points are ordered by distance, not by angle"
            from c25 import raw
            if not raw(o) and not {S.full(x).split("[")[0] for f, m in o.st.facts.items() if isinstance(f, Poly) and far(f, m) is None for x in f.atoms() if "A" in S.full(x) or "B" in S.full(x)} - {"dist"}:
                return "two points are ordered without comparing their angles"
            raise Inconclusive("the sort does not compare angles")
        if a & (NEG | POS) & ~{-1: NEG, 0: ZER, 1: POS}[ORDN[v.v]]:
            return "the points are not in counterclockwise order around the centre"
    return None


def along_stub(W):
    from stubs import ordering

    def f(eng, st, a, c, dty, fr, sp):
        p, q = (W.S.point(st, x) for x in a[1:])
        return [(ordering(s), x) for s, x in W.S.sign3(st, "along", [], p, q)]
    W.S.on(f, path=R + "data::vector::Vector::cmp_along")


def monotone_test(ctx):
    key = public(ctx, "is_monotone")
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    along_stub(W)
    b = P.body(key)
    args = [e.mkdeep(W.st, n, b["locals"][i + 1]) for i, n in enumerate(("poly", "dir"))]
    outs = e.run(key, args, W.st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"monotone test: {m}", d or {})
    loops = loops_of(outs)
    # three vertices are always monotone
    tri = {id(o) for o in outs if not e.possible(o.st, Poly.atom("len(poly.rings[0])", USZ) - Poly.const(3)) & POS}
    # the extremes: loop variables replaced by the boundary vertex just visited
    ext = {}
    for info, os in loops:
        back = [o for o in os if o.kind == "back" and o.info is info]
        for n in sorted({p for o in back for p in e.phi_updates(info, o.st)}):
            rows = []
            for o in back:
                u = e.phi_updates(info, o.st).get(n)
                if u is None or not isinstance(u[0], Opq) or not isinstance(u[1], Opq):
                    break
                i, a = S.full(u[0].t), S.full(u[1].t)
                m = re.fullmatch(r"each\d*\[(boundary\[.*?\])\]", i)
                if not m or not (a == n or re.fullmatch(r"each\d*\[" + re.escape(m.group(1)) + r"\]", a)):
                    break
                each = [x for x in (f"each{k}[{m.group(1)}]" for k in ("1", "2", "3")) if a == x] or [f"each1[{m.group(1)}]"]
                rows.append((a != n, S.order_mask(o.st, "along", [], S.intern(f"pt({each[0]})"), S.intern(f"pt({n})"))))
            else:
                if rows:
                    ext[n] = rows
    kind = {}
    for n, rows in ext.items():
        up = 0
        for take, m in rows:
            if m & POS:
                up |= 1 if take else 2
            if m & NEG:
                up |= 4 if take else 8
        kind[n] = {9: "last", 6: "first"}.get(up)
    rng = {}
    for o in outs:
        for k in o.st.facts:
            if isinstance(k, tuple) and k[0] == "walk":
                m = re.fullmatch(r"range\[(.*);(\w+);(.*)\]", S.full(k[1]))
                if m:
                    rng[k[1]] = m.groups()
    if not rng or any(x not in kind for lo, _, hi in rng.values() for x in (lo, hi)):
        raise Inconclusive("the two chains of the boundary were not recognised")
    seen, n = set(), 0
    for it, (lo, k, hi) in rng.items():
        if None in (kind[lo], kind[hi]) or kind[lo] == kind[hi]:
            bad("extremes", "the chains do not run between the extreme vertices along the direction")
            continue
        if k != "Excluded":
            bad("past", "a chain runs past the extreme vertex it ends at")
            continue
        want = 1 if kind[lo] == "first" else -1
        seen.add(want)
        c = f"each[{S.full(it)}]"
        for o in outs:
            w = walked(o, it)
            if w[-1:] != [True]:
                continue
            n += 1
            m = S.order_mask(o.st, "along", [], S.intern(f"pt({nx(c)})"), S.intern(f"pt({c})"))
            m2 = m if want > 0 else (m & ZER) | (POS if m & NEG else 0) | (NEG if m & POS else 0)
            if o.kind == "back" and m2 & NEG:
                bad("against", f"an edge of the {'rising' if want > 0 else 'falling'} chain that runs against the direction is accepted")
            if o.kind == "ret":
                if e.deref(o.st, o.val) is True:
                    bad("stop", "a boundary is accepted before all of its edges are looked at")
                elif m2 & (POS | ZER):
                    bad("along", f"an edge of the {'rising' if want > 0 else 'falling'} chain that does not run against the direction is rejected")
    for o in outs:
        if o.kind == "ret" and e.deref(o.st, o.val) is True and id(o) not in tri:
            if len([it for it in rng if walked(o, it)[-1:] == [False]]) < len(rng):
                bad("half", "a boundary is accepted although only one of its chains was looked at")
        if o.kind == "ret" and e.deref(o.st, o.val) is False and id(o) in tri and not any(walked(o, it) for it in rng):
            bad("refuse", "a triangle is rejected")
        elif o.kind == "ret" and e.deref(o.st, o.val) is False and all(walked(o, it)[-1:] == [False] for it in rng):
            bad("refuse", "a boundary is rejected although both of its chains run along the direction")
    if seen and seen != {1, -1}:
        bad("half", "only one of the two chains of the boundary is looked at")
    ctx.obligation("monotone test: both chains between the extreme vertices", paths=n, function=key)


def monotone_polygon(ctx):
    from c25 import closure_rows, ORDN, chain
    key = public(ctx, "new_monotone_polygon")
    where = where_of(ctx, key)
    W = World(ctx)
    e, S, P = W.e, W.S, ctx.P
    along_stub(W)
    checked(W)

    def turn(eng, st, a, c, dty, fr, sp):
        ps = [S.point(st, Adt(POINT, 0, [eng.deref(st, x)], PT_TY)) for x in a]
        st = st.copy()
        st.tags = dict(st.tags, sides=st.tags.get("sides", ()) + (tuple(S.full(p) for p in ps),))
        return [(S.orientation(s), x) for s, x in S.turn(st, *ps)]
    S.on(turn, path=ORI + "::new")
    S.on(turn, path=POINT + "::orient")
    b = P.body(key)
    args = [e.mkdeep(W.st, n, b["locals"][i + 1]) for i, n in enumerate(("pts", "dir"))]
    outs = e.run(key, args, W.st)
    bad = lambda k, m, d=None: ctx.violation(f"{k}|{key}", where, f"monotone polygon: {m}", d or {})
    validated(ctx, e, outs, bad)
    n = 0
    for info, os in loops_of(outs):
        back = [o for o in os if o.kind == "back" and o.info is info]
        for o in back:
            up = e.phi_updates(info, o.st)
            put = {p: e.seqinfo[v.t] for p, (_, v) in up.items() if isinstance(v, Opq) and e.seqinfo.get(v.t, ("",))[0] in ("push", "ins")}
            if len(put) != 1:
                continue
            (dst, how), = put.items()
            x = how[2] if how[0] == "push" else how[3]
            end = "back" if how[0] == "push" else "front" if str(how[2]) == "0" else None
            x = S.full(e.deref(o.st, x).t) if isinstance(e.deref(o.st, x), Opq) else None
            m = re.fullmatch(r"(.*)\[(.*)\]", x or "")
            if not m or end is None:
                raise Inconclusive("the loop over the sorted points was not recognised")
            src, at = m.groups()
            if src in up:
                first = up[src][0]
                down = at == f"len({src}) - 1"
                if not down:
                    raise Inconclusive("the loop over the sorted points was not recognised")
            else:
                steps = {p: (i, v) for p, (i, v) in up.items() if isinstance(v, Num) and p == at}
                if at not in steps or (steps[at][1].p - Poly.atom(at, USZ)).t == () or str(steps[at][1].p - Poly.atom(at, USZ)) != "1":
                    raise Inconclusive("the loop over the sorted points was not recognised")
                down, first = False, None
            sides = o.st.tags.get("sides", ())
            if len(sides) != 1:
                raise Inconclusive("side of a point not recognised")
            ops = src if first is None else first.t if isinstance(first, Opq) else ""
            seq = first if isinstance(first, Opq) else Opq(ops, None)
            lo, hi = S.intern(f"{ops}[0]"), S.intern(f"{ops}[{e.seq_len(o.st, seq) - Poly.const(1)}]")
            mask = S.turn_mask(o.st, lo, hi, S.intern(x))
            n += 1
            if set(sides[0]) != {S.full(lo), S.full(hi), x} and x in sides[0] and all(z == x or z.startswith(ops + "[") for z in sides[0]):
                bad("line", "the points are not divided by the line between the extreme points", {"line": [z[len(ops):] for z in sides[0] if z != x]})
                continue
            if mask == ALL:
                raise Inconclusive("side of a point not recognised")
            right = "front" if down else "back"
            if mask & NEG and end != right or mask & POS and end == right:
                bad("side", "a point is put on the chain of the other side of the line between the extreme points")
            q, src_ = chain(e, first if first is not None else Opq(src, None))
            kinds = [x_[0] for x_ in q]
            if isinstance(src_, Opq) and src_.t == "pts" and not any(k.startswith("sort") for k in kinds):
                bad("sort", "the points are not put in order along the direction")
            if isinstance(src_, Opq) and src_.t == "pts" and not any(k.startswith("dedup") for k in kinds):
                bad("repeated", "points given more than once are not reduced to one")
            if "rev" in kinds:
                raise Inconclusive("order of the points not recognised")
    if not n:
        raise Inconclusive("the loop over the sorted points was not recognised")
    for kind, seq, clo, st in {str(x[1]): x for o in outs for x in comparator_of(e, o)}.values():
        if clo is None:
            raise Inconclusive("order of the points not recognised")
        rel = 0
        for o in closure_rows(ctx, e, S, st, clo):
            if o.kind != "ret":
                continue
            v = e.deref(o.st, o.val)
            a = S.order_mask(o.st, "along", [], "A", "B")
            if not isinstance(v, Adt):
                raise Inconclusive("comparison result not recognised")
            rel |= a != ALL
            if a != ALL and a & (NEG | POS) & ~{-1: NEG, 0: ZER, 1: POS}[ORDN[v.v]]:
                bad("order", "the points are not in order along the direction")
        if not rel:
            raise Inconclusive("order of the points not recognised")
    for o in outs:
        if o.kind == "ret":
            kind, v = outcome(ctx, e, o)
            if v == "InsufficientVertices" and kind == "err":
                ln = {at for k in o.st.facts if isinstance(k, Poly) for at in k.atoms() if str(at).startswith("len(") and "pts" in S.full(str(at))}
                if ln and all(e.possible(o.st, Poly.atom(at, USZ) - Poly.const(3)) & (ZER | POS) for at in ln):
                    bad("many", "three points or more are refused as too few")
    ctx.obligation("monotone polygon: points sorted along the direction, right chain up, left chain down, checked by the validating constructor", paths=n, function=key)


def checked(W):
    """the constructors of a polygon: the validating one fails or not, the other one is only recorded"""
    S = W.S
    S.on(result_stub(W, "new"), path=POLY + "::new")

    def raw(eng, s, a, c, dty, fr, sp):
        s = s.copy()
        s.event(("raw",))
        return [(Opq("raw polygon", dty), s)]
    S.on(raw, path=POLY + "::new_unchecked")
    S.on(result_stub(W, "validate"), path=POLY + "::validate")


def validated(ctx, e, outs, bad):
    oks = 0
    for o in outs:
        if o.kind != "ret":
            continue
        kind, v = outcome(ctx, e, o)
        if kind != "ok":
            continue
        oks += 1
        cs = [o.st.facts.get(("choice", x)) for x in ("new", "validate")]
        if 1 in cs:
            bad("swallowed", "an invalid boundary is returned as a polygon")
        elif 0 not in cs:
            if any(ev[0] == "raw" for ev in o.st.events()):
                bad("unchecked", "a boundary is returned as a polygon without being validated")
            else:
                raise Inconclusive("construction of the polygon not recognised")
    if not oks:
        bad("never", "no polygon is ever returned")


def part(ctx, name, f):
    try:
        f(ctx)
    except Inconclusive as x:
        ctx.inconclusive(name, "", str(x))


def run(ctx):
    part(ctx, "two-opt repair", untangle)
    part(ctx, "crossing test", crossing_test)
    part(ctx, "two-opt", resolve)
    part(ctx, "two-opt polygon", two_opt)
    part(ctx, "star polygon", star)
    part(ctx, "monotone test", monotone_test)
    part(ctx, "monotone polygon", monotone_polygon)
