import re
import re
from polyg import *
from spec import Table, Rows, Catalogue
from loops import loops_of, ring_loop, ring_scan
from pipeline import elements, index_sets, constants, produced
from engine import Inconclusive, Outcome

LEVEL = "other"
EXPLANATION = ("The validation gates are analysed with their callees replaced by contracts with undetermined results; every path to acceptance must have asked every question "
               "with the accepting answer (typestate of the gate). The pairwise intersection query is read as a comprehension over index pairs, and the per-vertex loops as inductions."
               " The duplicate scan must look up every point, an index-pair loop must keep no pair out of its range, and a loop whose limits depend on the number of points is evaluated at the limits of small rings.")
ASSUMPTIONS = ["std ordered sets keep one element per equality class", "callees decided by C06 (segment intersection), C11 (boundary iteration), C18 (orientation), C19 (point equality)"]
RES = "core::result::Result"
LSV = R + "data::line_segment::LineSegmentView"


def opaque(name, path, args=()):
    return Opq(name, ("adt", path, tuple(args)))


def oks(e, st, ty):
    return ty


def validate_weakly(ctx):
    key, kori = ctx.one(POLY + "::validate_weakly"), ctx.one(POLY + "::orientation")
    kseg = ctx.one(R + "algorithms::intersection::naive::segment_intersections")
    if not (key and kori and kseg):
        return
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    e.add_sign(st, e.seq_len(st, p.rings(st)), POS)
    n = p.size(st)
    pk = e.key(st, p.val(st))
    ori = opaque("orientation", ORI)
    hit = opaque("first-intersection", "core::option::Option", (("tuple", ()),))
    asked = []

    def c_or(eng, s, a, c, dty, fr, sp):
        if eng.key(s, eng.deref(s, a[0])) != pk:
            raise Inconclusive("orientation of another polygon")
        return [(ori, s)]

    def c_seg(eng, s, a, c, dty, fr, sp):
        asked.append((eng.deref(s, a[0]), s))
        return [(Adt("pairwise", 0, []), s)]

    def c_next(eng, s, a, c, dty, fr, sp):
        v = eng.deref(s, a[0])
        if isinstance(v, Adt) and v.path == "pairwise":
            return [(hit, s)]
        return None
    over(e, kori, c_or)
    over(e, kseg, c_seg)
    old = e.models.get("core::iter::traits::iterator::Iterator::next")
    e.overrides_iter = c_next
    e.overrides["core::iter::traits::iterator::Iterator::next"] = c_next

    def spec(o, x):
        if x.kind != "ret":
            return None
        ok = o.variant(x.val) == 0
        if o.sign(n - Poly.const(3)) < 0:
            return "a ring of fewer than three vertices rejected" if ok else None
        if o.vname(ori) != "CounterClockWise":
            return "a ring that is not counter-clockwise rejected" if ok else None
        if o.variant(hit) == 1:
            return "a ring with intersecting edges rejected" if ok else None
        return None if ok else "the ring accepted"
    Table(ctx, "Polygon::validate_weakly", key, [p.ref], st, spec, Catalogue([repr(n)], 0, 5).ignore(r"\[|^len\(|^phi"), [repr(n)], eng=e).run()
    # the edges handed to the pairwise query are all boundary edges
    name = "edges compared pairwise by validation"
    try:
        outs = e.run(key, [p.ref], st)
        if not asked:
            raise Inconclusive("no pairwise query")
        built = set()
        for info, os_ in loops_of(outs):
            l, first = ring_scan(e, info, os_, n)
            if first:
                if any(ev[0] == "push" and isinstance(ev[2], Adt) and ev[2].path.endswith("::DirectedEdge") for ev in info.init.events()):
                    raise Inconclusive("leading edges are collected elsewhere")
                for r in l.rows:
                    for ev in r.o.st.events():
                        if ev[0] == "push" and isinstance(ev[2], Adt) and ev[2].path.endswith("::DirectedEdge"):
                            if e.key(r.o.st, e.deref(r.o.st, e.project(r.o.st, ev[2], (".", 0)))) != e.key(r.o.st, p.vertex(r.o.st, l.k)):
                                raise Inconclusive("collected edges are not those of the visited vertices")
                ctx.violation(f"{name}|first|{key}", ctx.where(ctx.P.fns[key]), f"{name}: {first} leading boundary edge(s) are not compared with the others", {"function": key})
                return
            hits = []
            for r in l.rows:
                if r.kind == "early":
                    raise Inconclusive("leaves while collecting the edges")
                evs = [ev for ev in r.o.st.events() if ev[0] == "push" and isinstance(ev[2], Adt) and ev[2].path.endswith("::DirectedEdge")]
                hits.append((r, evs))
            built.add(id(info))

            def edges(o, x):
                r, evs = [h for h in hits if h[0].o is x][0]
                if r.kind == "done":
                    return None
                if len(evs) != 1:
                    return "exactly one edge collected per vertex" if any(h[1] for h in hits) else None
                d = e.deref(o.st, evs[0][2])
                a, b = (e.deref(o.st, e.project(o.st, d, (".", i))) for i in (0, 1))
                want = succ(o, l.k, n)
                if e.key(o.st, a) != e.key(o.st, p.vertex(o.st, l.k)) or e.key(o.st, b) != e.key(o.st, p.vertex(o.st, want)):
                    return "the edge from the k-th vertex to its successor"
                return None
            if not any(h[1] for h in hits):
                raise Inconclusive("loop without collected edges")
            Rows(ctx, name, key, [r.o for r in l.rows], st, edges, None, eng=e).run()
        if len(built) != 1:
            raise Inconclusive(f"{len(built)} collecting loops")
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


def over(e, key, f):
    """contract for every instance of a function"""
    path = e.prog.fns[key]["path"]
    for k, fn in e.prog.fns.items():
        if fn["path"] == path:
            e.fn_overrides[k] = f


def pairwise(ctx):
    key = ctx.one(R + "algorithms::intersection::naive::segment_intersections")
    if not key:
        return
    name = "pairwise intersection query"
    where = ctx.where(ctx.P.fns[key])
    e, st = ctx.engine(), State()
    body = ctx.P.body(key)
    edges = e.mkdeep(st, "edges", body["locals"][1])
    n = e.seq_len(st, edges)
    asked = {}

    def isect(eng, s, a, c, dty, fr, sp):
        ks = [eng.key(s, eng.deref(s, v)) for v in a]
        t = f"isect({ks[0]},{ks[1]})"
        s = s.copy()
        s.event(("isect", ks[0], ks[1], t))
        return [(Opq(t, dty), s)]
    for k in ctx.find(name="intersect", trait=R + "intersection::Intersects", self_ty=lambda t: t and strip(t)[0] == "adt" and strip(t)[1] == LSV):
        over(e, k, isect)
    try:
        outs = [o for o in e.run(key, [edges], st)]
        outs = [o for o in outs if o.kind != "panic"]
        if not outs or any(o.kind != "ret" for o in outs):
            raise Inconclusive("not a lazy pipeline")
        els = [x for o in outs for x in elements(e, o.st, o.val)]
        term = e.deref(st, edges).t
        rx = re.compile(re.escape(term) + r"\[([^\[\]]*)\]")
        nbad = 0
        keep = [x for x in els if x.keep]
        bn = {repr(b[0]): b[0] for x in els for b in x.binders}

        def index_terms(k):
            """the indices of `edges` a value number mentions, as polynomials"""
            return [parse_affine(t, bn, repr(n)) for t in rx.findall(k)]
        for x in els:
            evs = [ev for ev in x.st.events() if ev[0] == "isect"]
            if len(evs) != 1:
                raise Inconclusive(f"{len(evs)} intersection questions for one pair")
            ev = evs[0]
            ia, ib = index_terms(ev[1]), index_terms(ev[2])
            if len(ia) != 1 or len(ib) != 1:
                raise Inconclusive("the compared edges are not recognised")
            some_ = e.variants(x.st, Opq(ev[3], ("adt", "core::option::Option", (None,))))
            vs = {v for v, _ in some_}
            if len(vs) != 1:
                raise Inconclusive("verdict independent of the intersection")
            if (vs == {1}) != x.keep:
                nbad += 1
                ctx.violation(f"{name}|filter|{key}", where, f"{name}: a pair is {'reported' if x.keep else 'dropped'} although its edges {'do not ' if x.keep else ''}intersect",
                              {"function": key})
            if x.keep:
                if not (isinstance(x.val, Tup) and len(x.val.f) == 2):
                    raise Inconclusive("reported value")
                got = sorted(map(repr, [index_terms(e.key(x.st, x.val.f[i]))[0] for i in (0, 1)]))
                if got != sorted(map(repr, ia + ib)):
                    nbad += 1
                    ctx.violation(f"{name}|report|{key}", where, f"{name}: reports other edges than the ones compared", {"function": key})
        idx = lambda x: tuple(index_terms(e.key(x.st, x.val.f[i]))[0] for i in (0, 1))
        conv = index_sets(keep, repr(n), range(0, 6), idx)
        for c in sorted(x for x in constants(keep, repr(n)) if 200 < x < 1 << 48):
            # limits far above: single pairs around them
            nv = c + 3
            spots = sorted({0, 1, 2, c // 2, c - 1, c, c + 1, nv - 1})
            ps = [(i, j) for i in spots for j in spots if i != j]
            got = produced(keep, repr(n), nv, idx, ps)
            miss = [t for t in ps if t[0] > t[1] and t not in got and t[::-1] not in got]
            if miss:
                nbad += 1
                ctx.violation(f"{name}|pairs|{key}", where, f"{name}: for {nv} edges the compared pairs miss {sorted(miss[0])}", {"function": key})
                break
        for nv, got in conv.items():
            und = {frozenset(t) for t in got}
            want = {frozenset((i, j)) for i in range(nv) for j in range(i)}
            if any(i < 0 or i >= nv for t in got for i in t):
                raise Inconclusive("index out of range")
            miss = want - und
            extra = [t for t in got if t[0] == t[1]]
            if miss or extra:
                nbad += 1
                ctx.violation(f"{name}|pairs|{key}", where, f"{name}: for {nv} edges the compared pairs " + (f"miss {sorted(map(sorted, miss))[0]}" if miss else f"include edge {extra[0][0]} with itself"),
                              {"function": key})
                break
        ctx.obligation(name, rows=len(els) + sum(len(g) for g in conv.values()), function=key, bad=nbad)
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


def parse_affine(t, bn, size):
    """text of an affine polynomial in the binders and the length"""
    r = ZERO
    t = t.replace(" - ", " + -")
    for m in t.split(" + "):
        m = m.strip()
        s = 1
        if m.startswith("-"):
            s, m = -1, m[1:]
        c = 1
        if "*" in m:
            a, m = m.split("*", 1)
            if not a.isdigit():
                raise Inconclusive(f"index {t}")
            c = int(a)
        if m.isdigit():
            r = r + Poly.const(s * c * int(m))
        elif m in bn:
            r = r + bn[m].scale(s * c)
        elif m == size:
            r = r + Poly.atom(size, USZ).scale(s * c)
        else:
            raise Inconclusive(f"index {t}")
    return r


def validate(ctx):
    key, kw = ctx.one(POLY + "::validate"), ctx.one(POLY + "::validate_weakly")
    if not (key and kw):
        return
    name = "Polygon::validate"
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    e.add_sign(st, e.seq_len(st, p.rings(st)), POS)
    n = e.seq_len(st, p.points(st))
    nr = p.size(st)
    pk = e.key(st, p.val(st))
    weak = {}

    def c_weak(eng, s, a, c, dty, fr, sp):
        if eng.key(s, eng.deref(s, a[0])) != pk:
            raise Inconclusive("weak validation of another polygon")
        v = Opq("weakly", dty)
        weak["v"] = v
        s = s.copy()
        s.event(("weak",))
        return [(v, s)]
    over(e, kw, c_weak)
    fresh = [0]

    def insert(eng, s, a, c, dty, fr, sp):
        s = s.copy()
        x = eng.key(s, eng.deref(s, a[1]))
        s.event(("insert", x))
        return [(not b, s2) for b, s2 in eng.ask_bool(s, Opq(f"seen({x})", ("bool",)))]

    def contains(eng, s, a, c, dty, fr, sp):
        x = eng.key(s, eng.deref(s, a[1]))
        s = s.copy()
        s.event(("asked", x))
        return [(b, s2) for b, s2 in eng.ask_bool(s, Opq(f"seen({x})", ("bool",)))]
    for st_ in ("alloc::collections::btree::set::BTreeSet::<T, A>", "alloc::collections::btree::set::BTreeSet::<T>", "std::collections::hash::set::HashSet::<T, S>"):
        e.models[st_ + "::insert"] = e.overrides[st_ + "::insert"] = insert
        e.models[st_ + "::contains"] = e.overrides[st_ + "::contains"] = contains
    try:
        outs = e.run(key, [p.ref], st)
        ls = loops_of(outs)
        rets = [o for o in outs if o.kind == "ret"]
        # every acceptance goes through the weak validation's acceptance
        def gate(o, x):
            ok = o.variant(x.val) == 0
            ran = [ev for ev in o.st.events() if ev[0] == "weak"]
            if not ok:
                return None
            if not ran:
                return "acceptance only after the weak validation"
            return None if o.variant(weak["v"]) == 0 else "rejection when the weak validation rejects"
        Rows(ctx, name + ": acceptance requires weak validation", key, rets, st, gate, None, eng=e).run()
        if len(ls) != 1:
            raise Inconclusive("not a single duplicate scan")
        info, os_ = ls[0]
        l = None
        for size, vert in ((n, lambda s, k: e.seq_read(s, p.points(s), k)), (nr, lambda s, k: p.vertex(s, k))):
            try:
                l = ring_loop(e, info, os_, size)
                break
            except Inconclusive:
                continue
        if l is None:
            for size in (n, nr):
                try:
                    _, out = ring_scan(e, info, os_, size)
                except Inconclusive:
                    continue
                if out and all(len([ev for ev in o.st.events() if ev[0] in ("insert", "asked")]) <= 1 for o in os_):
                    which = "the last points" if out == "later" else f"the first {out} point(s)"
                    ctx.violation(f"{name}|left out", ctx.where(ctx.P.fns[key]), f"{name}: the search for repeated points leaves out {which}", {"left out": out})
                    return
            raise Inconclusive("the duplicate scan is not over all points")

        def scan(o, x):
            r = [r for r in l.rows if r.o is x][0]
            if r.kind == "done":
                return None
            want = e.key(o.st, e.deref(o.st, vert(o.st, l.k)))
            evs = [ev for ev in o.st.events() if ev[0] in ("insert", "asked")]
            if not evs:
                if any(ev[0] in ("insert", "asked") for z in l.rows for ev in z.o.st.events()):
                    return "every point looked up in the set of seen points"
                raise Inconclusive("the duplicate scan does not use a set")
            if any(ev[1] != want for ev in evs):
                return "every point looked up in the set of seen points"
            seen = o.bool(Opq(f"seen({want})", ("bool",)))
            if r.kind == "early":
                if not seen:
                    raise Inconclusive("leaves on a new point")
                return None if o.variant(x.val) == 1 else "rejection of a repeated point"
            if seen:
                return "the scan to stop at a repeated point"
            return None if any(ev[0] == "insert" for ev in evs) else "every point entered into the set of seen points"
        Rows(ctx, name + ": duplicate scan", key, [r.o for r in l.rows], st, scan, None, eng=e).run()
        # nothing else is rejected
        def rejects(o, x):
            if o.variant(x.val) == 0:
                return None
            evs = [ev for ev in o.st.events() if ev[0] in ("insert", "asked")]
            if any(o.bool(Opq(f"seen({ev[1]})", ("bool",))) for ev in evs):
                return None
            if any(ev[0] == "weak" for ev in o.st.events()) and o.variant(weak["v"]) == 1:
                return None
            return "rejection only of repeated points or on the weak validation's verdict"
        Rows(ctx, name + ": reasons of rejection", key, rets, st, rejects, None, eng=e).run()
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


CHANGED = re.compile(r"(sub|dedup|pop|popf|truncate|sort|reverse|rev|rotate_left|rotate_right|remove|swap|swap_remove|drain|retain|st|push|insert)\w*\(")


def new(ctx):
    ks = {m: ctx.one(POLY + "::" + m) for m in ("new", "new_unchecked", "ensure_ccw", "validate")}
    if not all(ks.values()):
        return
    key = ks["new"]
    e, st = ctx.engine(), State()
    pts = e.mkdeep(st, "pts", ctx.P.body(key)["locals"][1])
    n = e.seq_len(st, pts)
    res = {}
    seq = {}

    def c_new(eng, s, a, c, dty, fr, sp):
        k = eng.key(s, a[0])
        if k != eng.key(s, pts):
            if not CHANGED.match(k.strip("<>")):
                raise Inconclusive("polygon of other points")
            s = s.copy()
            s.event(("other", k))
        return [(eng.mkdeep(s, "poly", POLY_TY), s)]

    def c(name_, mut):
        def f(eng, s, a, c_, dty, fr, sp):
            s = s.copy()
            k0 = eng.key(s, eng.deref(s, a[0]))
            if mut:
                r = a[0]
                while isinstance(eng.load(s, r.c, r.pr), Ref):
                    r = eng.load(s, r.c, r.pr)
                eng.store(s, r.c, r.pr, eng.mkdeep(s, "oriented", POLY_TY))
            s.event((name_, k0))
            res[name_] = Opq(name_ + "-verdict", dty)
            return [(res[name_], s)]
        return f
    over(e, ks["new_unchecked"], c_new)
    over(e, ks["ensure_ccw"], c("ccw", True))
    over(e, ks["validate"], c("valid", False))

    def spec(o, x):
        if x.kind != "ret":
            return None
        ok = o.variant(x.val) == 0
        evs = [ev for ev in o.st.events() if ev[0] in ("ccw", "valid")]
        if o.sign(n - Poly.const(3)) < 0:
            if ok:
                if not any(ev[0] == "valid" for ev in evs):
                    return "fewer than three points rejected"
                raise Inconclusive("size is left to validation")
            return None
        names = [ev[0] for ev in evs]
        if ok and any(ev[0] == "other" for ev in o.st.events()):
            return "a polygon of all the given points in the given order"
        if ok:
            if "valid" not in names:
                return "acceptance only after validation"
            if o.variant(res["valid"]) != 0:
                return "rejection when validation rejects"
            if "ccw" in names and o.variant(res["ccw"]) != 0:
                return "rejection when the ring cannot be made counter-clockwise"
            last = [ev for ev in evs if ev[0] == "valid"][-1]
            if e.key(o.st, e.deref(o.st, o.field(x.val, 0, 0))) != last[1]:
                return "the validated polygon returned"
            return None
        bad = [m for m in names if o.variant(res[m]) == 1]
        return None if bad else "acceptance when orientation and validation succeed"
    Table(ctx, "Polygon::new", key, [pts], st, spec, Catalogue([repr(n)], 0, 5).ignore(r"\[|^len\("), [repr(n)], eng=e).run()


def convex(ctx):
    path = R + "data::polygon::convex::PolygonConvex"
    key, kv, kc = ctx.one(path + "::validate"), ctx.one(POLY + "::validate"), ctx.one(CURSOR + "::orientation")
    if not (key and kv and kc):
        return
    name = "PolygonConvex::validate"
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    e.add_sign(st, e.seq_len(st, p.rings(st)), POS)
    n = p.size(st)
    e.add_sign(st, n, POS)
    pk = e.key(st, p.val(st))
    conv = Ref(e.new_cell(st, Adt(path, 0, [p.val(st)], ("adt", path, (T,)))))
    res = {}

    def c_v(eng, s, a, c, dty, fr, sp):
        if eng.key(s, eng.deref(s, a[0])) != pk:
            raise Inconclusive("validation of another polygon")
        res["v"] = Opq("valid-verdict", dty)
        s = s.copy()
        s.event(("valid",))
        return [(res["v"], s)]

    def c_o(eng, s, a, c, dty, fr, sp):
        (r, sz, pos), k = cursor_of(eng, s, a[0])
        t = f"turn({r};{pos})"
        s = s.copy()
        s.event(("turn", r, pos, t))
        return [(Opq(t, ("adt", ORI, ())), s)]
    over(e, kv, c_v)
    over(e, kc, c_o)
    try:
        outs = e.run(key, [conv], st)
        rets = [o for o in outs if o.kind == "ret"]

        def gate(o, x):
            if o.variant(x.val) != 0:
                return None
            if not any(ev[0] == "valid" for ev in o.st.events()):
                return "acceptance only after polygon validation"
            return None if o.variant(res["v"]) == 0 else "rejection when polygon validation rejects"
        Rows(ctx, name + ": acceptance requires polygon validation", key, rets, st, gate, None, eng=e).run()
        ls = loops_of(outs)
        if len(ls) != 1:
            raise Inconclusive("not a single scan of the vertices")
        l, first = ring_scan(e, ls[0][0], ls[0][1], n)
        if first:
            others = [o for o in outs if any(ev[0] == "turn" and (ev[2].is_const() or ev[2] != l.k) for ev in o.st.events())]
            if others or not all(any(ev[0] == "turn" for ev in r.o.st.events()) for r in l.rows if r.kind == "back"):
                raise Inconclusive("leading vertices may be examined elsewhere")
            ctx.violation(f"{name}|first|{key}", ctx.where(ctx.P.fns[key]), f"{name}: the turn at {first} leading boundary vertex(es) is never examined", {"function": key})
            return

        def scan(o, x):
            r = [r for r in l.rows if r.o is x][0]
            evs = [ev for ev in o.st.events() if ev[0] == "turn"]
            if r.kind == "done":
                return None
            if not evs and r.kind == "back" and unbound(x, l.k):
                return "the turn of every vertex examined"
            if len(evs) != 1:
                raise Inconclusive("turn of the vertex not asked once")
            if o.sign(evs[0][1]) != 0 or o.sign(evs[0][2] - l.k) != 0:
                return "the turn of the visited vertex examined"
            t = o.vname(Opq(evs[0][3], ("adt", ORI, ())))
            if r.kind == "early":
                if t == "CounterClockWise":
                    return "the scan to go on at a convex vertex"
                return None if o.variant(x.val) == 1 else "rejection at a vertex that is not strictly convex"
            return None if t == "CounterClockWise" else "rejection at a vertex that is not strictly convex"
        cat = None
        Rows(ctx, name + ": every vertex strictly convex", key, [r.o for r in l.rows], st, scan, cat, eng=e).run()
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


def unbound(o, k):
    """nothing was decided about the vertex but bounds that any configuration satisfies after moving it"""
    from c25 import raw
    return not raw(o) and not any(isinstance(f, tuple) and f[0] in ("choice", "variant") for f in o.st.facts)


def run(ctx):
    new(ctx)
    validate(ctx)
    validate_weakly(ctx)
    pairwise(ctx)
    convex(ctx)
