from polyg import *
from spec import Table, Rows, Catalogue
from loops import loops_of
from engine import Inconclusive, Outcome
from effects import Effects, place_fields, short

LEVEL = "other"
EXPLANATION = ("Index tables are analysed as functions of a symbolic position: constructors and maps are decided for an arbitrary index of sequences of symbolic length "
               "(comprehension summaries of the building loops), and each iteration of the reordering loops is decided for an arbitrary position under the inverse relation "
               "between rings and position table; all sites that build a polygon or borrow an index table mutably are enumerated.")
ASSUMPTIONS = ["positions handed to the reordering operations lie on one ring of the polygon", "reversal end points differ (a one-vertex reversal is outside the statement)"]


def fields(e, st, p, v):
    """(points, ring index, position index, rings) of a polygon value"""
    v = e.deref(st, v)
    return tuple(e.deref(st, e.project(st, v, (".", i))) for i in (p.i_points, p.i_ringidx, p.i_posidx, p.i_rings))


# ------------------------------------------------------------------ construction
def constructor(ctx):
    key = ctx.one(POLY + "::new_unchecked")
    if not key:
        return
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    vs = Opq("vertices", ("adt", VECP, (("adt", POINT, (T, ("const", "2"))),)))
    vs = e.mkdeep(st, "vertices", e.prog.body(key)["locals"][1])
    n = e.seq_len(st, vs)
    q = at("q", USZ)
    e.add_sign(st, q, POS | ZER)
    e.add_sign(st, n - q, POS)

    def spec(o, x):
        if x.kind != "ret":
            return "a polygon"
        pts, ri, po, ri_s = fields(e, o.st, p, x.val)
        if e.key(o.st, pts) != e.key(o.st, vs):
            return "the given points in the given order"
        for what, s in (("ring number", ri), ("position", po)):
            if o.sign(e.seq_len(o.st, s) - n) != 0:
                return f"one {what} per point"
        if o.sign(e.seq_len(o.st, ri_s) - ONE) != 0:
            return "a single ring"
        ring = e.deref(o.st, e.seq_read(o.st, ri_s, ZERO))
        if o.sign(e.seq_len(o.st, ring) - n) != 0:
            return "a ring of all points"
        for what, s, want in (("ring number 0", ri, ZERO), ("position q", po, q), ("id q at position q", ring, q)):
            if o.sign(num(e, o.st, e.seq_read(o.st, s, q)) - want) != 0:
                return f"{what} for the q-th point"
        return None
    Table(ctx, "Polygon::new_unchecked", key, [vs], st, spec, None, eng=e).run()


# ------------------------------------------------------------------ maps
def maps(ctx):
    P = ctx.P
    jobs = [(m, ctx.one(POLY + "::" + m)) for m in ("map", "cast", "float", "map_points")]
    for m, key in jobs:
        if not key:
            continue
        e, st = ctx.engine(), State()
        body = P.body(key)
        args = []
        pv = None
        for i, t in enumerate(body["locals"][1:body["argc"] + 1]):
            if t[0] == "adt" and t[1] == POLY and pv is None:
                pv = Poly_(e, st, f"a{i}")
                args.append(pv.val(st))
            else:
                args.append(e.mkdeep(st, f"a{i}", t))
        if pv is None:
            ctx.inconclusive(m, key, "no polygon argument")
            continue
        src = fields(e, st, pv, args[0])
        n = e.seq_len(st, src[0])
        q = at("q", USZ)
        e.add_sign(st, q, POS | ZER)
        e.add_sign(st, n - q, POS)
        xy = coords(e, st, e.seq_read(st, src[0], q))

        def spec(o, x):
            if x.kind != "ret":
                return None
            r = fields(e, o.st, pv, x.val)
            for i, what in ((1, "ring numbers"), (2, "positions"), (3, "rings")):
                if e.key(o.st, r[i]) != e.key(o.st, src[i]):
                    return f"unchanged {what}"
            if o.sign(e.seq_len(o.st, r[0]) - n) != 0:
                return "as many points as before"
            got = e.deref(o.st, read_at(o, e, r[0], q))
            if m == "map_points":
                g = e.key(o.st, got).strip("<>")
                f = e.key(o.st, e.deref(o.st, args[1]))
                pt = e.key(o.st, e.deref(o.st, e.seq_read(o.st, src[0], q)))
                if g in (f"{f}({pt})", f"{f}({POINT.split('::')[-1]}#0([{xy[0]},{xy[1]}]))"):
                    return None
                if g.startswith("phi"):
                    raise Inconclusive("the q-th output point was not summarised")
                return "the image of the q-th point as the q-th point"
            c = coords(e, o.st, got)
            for j in (0, 1):
                w = xy[j]
                if m == "map":
                    f = e.key(o.st, e.deref(o.st, args[1]))
                    hit = [a for a in c[j].atoms() if a == f"{f}({w})" or a == f"f({w})"]
                    ok = len(hit) == 1 and c[j] == Poly.atom(hit[0])
                    if not ok and any(a.startswith("phi") for a in c[j].atoms()):
                        raise Inconclusive("the q-th output point was not summarised")
                else:
                    ok = c[j] == w
                    if not ok and any(a.startswith("phi") for a in c[j].atoms()):
                        raise Inconclusive("the q-th output point was not summarised")
                if not ok:
                    return f"the image of coordinate {j} of the q-th point there"
            return None
        Table(ctx, f"Polygon::{m}", key, args, st, spec, None, eng=e).run()


# ------------------------------------------------------------------ reordering loops
def chain(e, st, v, base):
    """update operations from the base sequence to v, innermost first"""
    ops = []
    v = e.deref(st, v)
    b = e.key(st, base)
    while e.key(st, v) != b:
        i = e.seqinfo.get(v.t) if isinstance(v, Opq) else None
        if not i or i[0] not in ("swap", "st"):
            raise Inconclusive(f"unrecognised update of an index table: {e.key(st, v)[:80]}")
        ops.append(i)
        v = e.deref(st, i[1])
    return ops[::-1]


class Tables:
    """ring `r` and position table before and after a sequence of updates"""

    def __init__(self, e, p, st0, poly0, st1, poly1, r):
        self.e, self.r = e, r
        a, b = fields(e, st0, p, poly0), fields(e, st1, p, poly1)
        if e.key(st0, a[0]) != e.key(st1, b[0]) or e.key(st0, a[1]) != e.key(st1, b[1]):
            raise Inconclusive("points or ring numbers are modified")
        self.base = e.deref(st0, e.seq_read(st0, a[3], r))
        self.posbase = a[2]
        self.pops = chain(e, st1, b[2], a[2])
        self.rops = []
        outer = chain(e, st1, b[3], a[3])
        new = a[3]
        for op in outer:
            if op[0] != "st" or op[2] != r:
                raise Inconclusive("another ring is modified")
        if outer:
            self.rops = chain(e, st1, outer[-1][3], self.base)
        self.touched = []
        for op in self.rops:
            self.touched += [op[2], op[3]] if op[0] == "swap" else [op[2]]

    def pid(self, o, y):
        return num(self.e, o.st, self.e.mk(f"{self.base.t}[{y}]", self.e.elem_ty(self.base)))

    def where(self, o, idp, extra=()):
        """position y (on the old ring) of the id numbered idp; None when it is not an id of the old ring"""
        for y in self.touched + list(extra):
            if self.pid(o, y) == idp:
                return y
        if any(self.base.t in a for a in idp.atoms()):
            raise Inconclusive(f"vertex id {idp} is not the content of a known position")
        return None

    def at(self, o, q, ops=None):
        """the old position whose id stands at q after the updates"""
        ops = self.rops if ops is None else ops
        for k in range(len(ops) - 1, -1, -1):
            op = ops[k]
            if op[0] == "swap":
                if o.sign(q - op[2]) == 0:
                    q = op[3]
                elif o.sign(q - op[3]) == 0:
                    q = op[2]
            elif o.sign(q - op[2]) == 0:
                y = self.where(o, num(self.e, o.st, op[3]))
                if y is None:
                    raise Inconclusive("unknown id stored")
                return y
        return q

    def recorded(self, o, y):
        """recorded position after the updates of the id that stood at old position y (old tables agree)"""
        z = ("id", y)

        def same(idp):
            w = self.where(o, idp, [y])
            if w is None:
                return False
            return o.sign(w - y_cur[0]) == 0
        y_cur = [y]
        for k in range(len(self.pops) - 1, -1, -1):
            op = self.pops[k]
            if op[0] == "swap":
                if same(op[2]):
                    w = self.where(o, op[3], [y])
                    if w is None:
                        return None
                    y_cur[0] = w
                elif same(op[3]):
                    w = self.where(o, op[2], [y])
                    if w is None:
                        return None
                    y_cur[0] = w
            elif same(op[2]):
                return num(self.e, o.st, op[3])
        return y_cur[0]


def steps(ctx, meth, rule):
    key = ctx.one(POLY + "::" + meth)
    if not key:
        return
    name = f"Polygon::{meth}"
    e, st = ctx.engine(), State()
    p = Poly_(e, st, mut=True)
    r = at("r", USZ)
    e.add_sign(st, e.seq_len(st, p.rings(st)) - r, POS)
    n = p.size(st, r)
    e.add_sign(st, n, POS)
    P1, P2, q = at("p1", USZ), at("p2", USZ), at("q", USZ)
    for x in (P1, P2, q):
        e.add_sign(st, n - x, POS)
        e.add_sign(st, x, POS | ZER)
    cell = p.ref
    try:
        outs = e.run(key, [p.ref, position(e, r, n, P1), position(e, r, n, P2)], st)
        ls = loops_of(outs)
        if len(ls) != 1:
            raise Inconclusive("not a single loop")
        info, os_ = ls[0]
        ups = [e.phi_updates(info, o.st) for o in os_ if o.kind == "back"]
        var = {}
        for w, P in (("p1", P1), ("p2", P2)):
            c = {m for u in ups for m, (i, _) in u.items() if isinstance(i, Num) and i.p == P}
            if len(c) > 1:
                raise Inconclusive("loop variables not recognised")
            var[w] = c.pop() if c else None
        h1 = Poly.atom(var["p1"], USZ) if var["p1"] else P1
        h2 = Poly.atom(var["p2"], USZ) if var["p2"] else P2
        rowsin = []
        for o in os_:
            if o.kind == "panic" and "overflow" not in str(o.val):
                continue
            s = o.st.copy()
            for x in (h1, h2):
                e.add_sign(s, x, POS | ZER)
                e.add_sign(s, n - x, POS)
            rowsin.append(Outcome(o.kind, o.val, s, o.info))
        names = [repr(n), "q", repr(h1), repr(h2), "p1", "p2"]
        names = list(dict.fromkeys(names))
        cat = Catalogue(names, 0, 6, rnd=20000, span=9).ignore(r"\[|len\(|^r$")

        def new(o, x, w, h):
            if x.kind != "back":
                return None
            u = e.phi_updates(info, o.st)
            return u[var[w]][1].p if var[w] else h

        def integrity(o, x):
            if x.kind == "panic":
                return None
            t = Tables(e, p, info.start, info.start.mem[cell.c], o.st, o.st.mem[cell.c], r)
            old = t.at(o, q)
            rec = t.recorded(o, old)
            if rec is None or o.sign(rec - q) != 0:
                return "a position table that records position q for the vertex placed at position q"
            return None
        Rows(ctx, f"{name}: tables stay inverse of each other", key, rowsin, st, integrity, cat, names, eng=e).run()

        def semantic(o, x):
            if x.kind == "panic":
                return "no arithmetic overflow on positions of the ring"
            t = Tables(e, p, info.start, info.start.mem[cell.c], o.st, o.st.mem[cell.c], r)
            return rule(o, x, t, n, h1, h2, q, lambda w: new(o, x, w, h1 if w == "p1" else h2))
        Rows(ctx, f"{name}: order after one step", key, rowsin, st, semantic, cat, names, eng=e).run()
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))


def swapped(o, t, q, a, b):
    want = b if o.sign(q - a) == 0 else a if o.sign(q - b) == 0 else q
    return o.sign(t.at(o, q) - want) == 0


def reverse_rule(o, x, t, n, a, b, q, new):
    s = o.sign(b - a)
    if s == 0:
        return None
    d = b - a if s > 0 else b - a + n
    if not swapped(o, t, q, a, b):
        return "the vertices at the two ends exchanged and all others in place"
    if o.sign(d - Poly.const(2)) <= 0:
        return None if x.kind == "ret" else "the reversal to be complete"
    if x.kind != "back":
        return "the reversal to go on"
    if o.sign(new("p1") - succ(o, a, n)) or o.sign(new("p2") - pred(o, b, n)):
        return "both ends to move inwards by one"
    return None


def join_rule(o, x, t, n, a, b, q, new):
    pb = pred(o, b, n)
    if o.sign(pb - a) == 0:
        if x.kind != "ret":
            return "the move to be complete"
        return None if o.sign(t.at(o, q) - q) == 0 else "no further change"
    if x.kind != "back":
        return "the move to go on"
    if o.sign(b - a) == 0:
        return None
    if not swapped(o, t, q, pb, b):
        return "the moved vertex exchanged with its predecessor"
    if o.sign(new("p2") - pb) or o.sign(new("p1") - a):
        return "the moved vertex tracked to its new position"
    return None


# ------------------------------------------------------------------ who may touch the tables
def sites(ctx):
    P = ctx.P
    ef = Effects(P)
    roots = [k for m in ("new_unchecked", "map", "cast", "float", "map_points", "vertices_reverse", "vertices_join") for k in ctx.find(POLY + "::" + m)]
    covered = set()
    for k in roots:
        covered |= {P.fns[x]["path"] for x in ef.reach(k)}
    n = 0
    p = Poly_(ctx.engine(), State())
    idx = {p.i_ringidx, p.i_posidx, p.i_rings}
    for k, f in P.fns.items():
        if not f["primary"]:
            continue
        b = P.body(k)
        for s in ef.local(k)[0]:
            if s.kind == "make" and s.what == POLY:
                n += 1
                if f["path"] not in covered and f["name"] != "clone":
                    ctx.inconclusive("construction sites", k, f"{short(f['path'])} builds a polygon field by field")
        for bb in b["bbs"]:
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                pl = [(s[1], "assigns")]
                if s[2][0] in ("ref", "addr") and s[2][1]:
                    pl.append((s[2][2], "borrows mutably"))
                for x, how in pl:
                    for path, _, i in place_fields(P, b, x):
                        if path == POLY and i in idx:
                            n += 1
                            if f["path"] not in covered:
                                ctx.inconclusive("mutation sites", k, f"{short(f['path'])} {how} an index table")
    ctx.obligation("sites that build polygons or borrow index tables mutably are the analysed ones", rows=n, function=roots[0] if roots else None)


def run(ctx):
    constructor(ctx)
    maps(ctx)
    steps(ctx, "vertices_reverse", reverse_rule)
    steps(ctx, "vertices_join", join_rule)
    ensure(ctx)
    sites(ctx)


def ensure(ctx):
    key, ok, vr = ctx.one(POLY + "::ensure_ccw"), ctx.one(POLY + "::orientation"), ctx.one(POLY + "::vertices_reverse")
    if not (key and ok and vr):
        return
    e, st = ctx.engine(), State()
    p = Poly_(e, st, mut=True)
    e.add_sign(st, e.seq_len(st, p.rings(st)), POS)
    n = p.size(st)
    e.add_sign(st, n - Poly.const(2), POS)
    ori = Opq("orientation", ("adt", ORI, ()))
    before = e.key(st, p.val(st))

    def c_or(eng, st, args, c, dty, fr, sp):
        if eng.key(st, eng.deref(st, args[0])) != before:
            raise Inconclusive("orientation of a modified polygon")
        return [(ori, st)]

    def c_rev(eng, st, args, c, dty, fr, sp):
        s = st.copy()
        s.event(("reverse", args[1], args[2]))
        return [(Tup([]), s)]
    e.fn_overrides[ok] = c_or
    e.fn_overrides[vr] = c_rev

    def spec(o, x):
        if x.kind != "ret":
            return None
        v = o.vname(ori)
        evs = [ev for ev in o.st.events() if ev[0] in ("reverse", "swap", "set")]
        okv = o.variant(x.val) == 0
        changed = e.key(o.st, p.val(o.st)) != before
        if v == "CoLinear":
            return None if not okv else "an error for colinear vertices"
        if not okv:
            return "success"
        if v == "CounterClockWise":
            return None if not evs and not changed else "an already counter-clockwise ring left alone"
        if changed or any(ev[0] != "reverse" for ev in evs):
            if changed and not evs:
                was, now = fields(e, st, p, p.val(st)), fields(e, o.st, p, p.val(o.st))
                diff = [e.key(st, a) != e.key(o.st, b) for a, b in zip(was, now)]
                if diff[0]:
                    return "the points left where they are (an id goes on naming the same vertex)"
                if diff[2] != diff[3]:
                    return "ring and recorded positions changed together"
            raise Inconclusive("the ring is reversed by other means")
        if len(evs) != 1:
            return "a clockwise ring reversed once"
        (ra, na, a), (rb, nb, b) = position_of(e, o.st, evs[0][1]), position_of(e, o.st, evs[0][2])
        if o.sign(ra) or o.sign(rb) or o.sign(na - n) or o.sign(nb - n):
            return "the outer ring reversed"
        if o.sign(a) < 0 or o.sign(a - n) >= 0 or o.sign(b) < 0 or o.sign(b - n) >= 0:
            return "the reversed range to lie on the ring"
        pa = pred(o, a, n)
        return None if o.sign(b - pa) == 0 or o.sign(b - pred(o, pa, n)) == 0 else "the whole ring reversed (up to a fixed vertex)"
    Table(ctx, "Polygon::ensure_ccw", key, [p.ref], st, spec, Catalogue([repr(n)], 3, 6).ignore(r"\[|len\("), [repr(n)], eng=e).run()
