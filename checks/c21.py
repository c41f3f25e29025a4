import re
from geo import *
from polyg import *
from values import *
from poly import Poly, ZERO, ONE
from stubs import Stubs, far
from loops import loops_of, ring_scan, phi_atom
from engine import Inconclusive, State

LEVEL = "other"
EXPLANATION = ("Both ear clipping iterators are analysed in two parts. Construction: the loops that link the remaining vertices, fill the queue of candidates, collect the "
               "hashes, measure the box and sort the hash list are summarised and compared with their rule. Step: one call of the iterator is run from an arbitrary "
               "state with orientation and triangle location as named decisions; every path that emits a triangle must have decided a left turn, walked over every "
               "remaining vertex (all of them, or both ways along the hash order until the hash leaves the range of the triangle's box) with each found outside, and "
               "must unlink the vertex, queue its neighbours once and count down."
               " The range of hashes has to be taken from the box of the triangle, each bound from its own coordinate, and an early return before the walk must be one that yields no triangle.")
ASSUMPTIONS = ["the two-ears theorem: a simple polygon always has an ear to clip", "locating a point in a triangle and orientation are decided by C05 and C01",
               "points inside a triangle hash between its box corners (C20)", "the queue of candidates and its membership bits start in agreement (checked) and stay so by the step rules"]
EAR = R + "algorithms::triangulation::earclip::"
ZT = R + "algorithms::zhash::ZHashable"
MAXU = Poly.const(2**64 - 1)
TWO = Poly.const(2)


def where_of(ctx, key):
    return ctx.where(ctx.P.fns[key])


def setup(ctx, e):
    P = ctx.P
    S = Stubs(ctx, e)
    S.orient()
    names = None

    def locate(eng, s, a, c, dty, fr, sp):
        nonlocal names
        names = [v["n"] for v in P.adts[dty[1]]["variants"]]
        t, p = S.points_in(s, a[0]), S.points_in(s, a[1])
        if len(t) != 3 or len(p) != 1:
            raise Inconclusive("located point or triangle not recognised")
        nm = S.intern(f"loc[{'|'.join(t)};{p[0]}]")
        S.located[nm] = (t, p[0])
        return [(Adt(dty[1], i, [], dty), x) for i, x in S.choice(s, nm, len(names))]
    S.located = {}
    S.on(locate, path=R + "data::triangle::TriangleView::locate")
    S.locnames = lambda: names

    def box(eng, s, a, c, dty, fr, sp):
        t = S.points_in(s, a[0])
        nm = S.intern(f"box[{'|'.join(t)}]")
        S.boxes[nm] = t
        return [(e.mkdeep(s, nm, dty), s)]
    S.boxes = {}
    S.on(box, path=R + "data::triangle::TriangleView::bounding_box")
    return S


def leaves(e, sa, a, sb, b, out, depth=0):
    """pairs of corresponding scalar or sequence values of two values of one shape"""
    a, b = e.deref(sa, a), e.deref(sb, b)
    if isinstance(a, (Adt, Tup, Clo)) and type(a) is type(b) and len(a.f) == len(b.f) and depth < 8:
        for x, y in zip(a.f, b.f):
            leaves(e, sa, x, sb, y, out, depth + 1)
    else:
        out.append((a, b))


def rekey(e, st, v):
    return e.key(st, e.deref(st, v))


class Roles:
    pass


# ------------------------------------------------------------------------------------ construction
def linking(e, info, os, n, seq_at):
    """tables a loop over positions fills: {phi: (index, value) as 'k'/'succ' of the linked sequence}"""
    loop, first = ring_scan(e, info, os, n)
    rows = [r for r in loop.rows if r.kind == "back"]
    if any(r.kind == "early" and r.o.kind != "panic" for r in loop.rows):
        raise Inconclusive("linking loop left early")
    pat = {}
    for r in rows:
        last = e.possible(r.o.st, n - ONE - loop.k) == ZER
        here, succ = seq_at(r.o.st, loop.k), seq_at(r.o.st, ZERO if last else loop.k + ONE)
        for name, (i, b) in r.upd.items():
            si = e.seqinfo.get(b.t) if isinstance(b, Opq) else None
            if not si or si[0] != "st" or not (isinstance(si[1], Opq) and si[1].t == name):
                continue
            v = si[3].p if isinstance(si[3], Num) else None
            if v is None:
                continue
            for tag, (x, y) in {"next": (here, succ), "prev": (succ, here)}.items():
                if si[2] == x and v == y:
                    pat.setdefault(name, []).append(tag)
    return loop, first, {nm: t[0] for nm, t in pat.items() if len(set(t)) == 1 and len(t) == len(rows)}


def construct(ctx, name, key, e, S, hashed):
    P = ctx.P
    st = State()
    b = P.body(key)
    args = [e.mkdeep(st, "poly", b["locals"][1])]
    pv = e.deref(st, args[0])
    i_rings = field_index(P, POLY, lambda t: vec_of(t) is not None and vec_of(vec_of(t)) is not None and is_adt(PTID)(vec_of(vec_of(t))), "rings")
    i_points = field_index(P, POLY, lambda t: vec_of(t) is not None and is_adt(POINT)(vec_of(t)), "points")
    ring = e.seq_read(st, e.deref(st, e.project(st, args[0], (".", i_rings))), ZERO)
    points = e.deref(st, e.project(st, args[0], (".", i_points)))
    n = e.seq_len(st, ring)
    outs = e.run(key, args, st)
    rets = [o for o in outs if o.kind == "ret" and e.possible(o.st, n) & POS]
    if len(rets) != 1:
        rets = sorted(rets, key=lambda o: len(o.st.tags.get("loops", ())))[-1:]
    if not rets:
        raise Inconclusive("no result")
    ret = rets[0]
    env = next((x for x in [e.deref(ret.st, ret.val)] + list(getattr(e.deref(ret.st, ret.val), "f", [])) if isinstance(e.deref(ret.st, x), Clo)), None)
    if env is None:
        raise Inconclusive("the iterator is not a closure")
    env = e.deref(ret.st, env)
    R_ = Roles()
    R_.env, R_.st, R_.n, R_.ring, R_.points = env, ret.st, n, ring, points
    R_.tag = {}                         # key of an initial value -> role
    where = where_of(ctx, key)
    rk, pk = (e.deref(st, v).t for v in (ring, points))
    R_.tag[rk], R_.tag[pk] = "order", "points"

    def vertex(s, k):
        return S.point(s, e.deref(s, e.seq_read(s, points, num(e, s, e.seq_read(s, ring, k)))))
    R_.vertex = vertex
    nobl = 0
    ident = set()
    hash_seq = None
    zkey = None
    for info, os in loops_of(outs):
        done = False
        try:
            loop, first = ring_scan(e, info, os, n)
        except Inconclusive:
            loop = None
        if loop is None:
            continue
        rows = [r for r in loop.rows if r.kind == "back"]
        # sequences pushed to
        for nm, i in loop.accumulators().items():
            vals = []
            for r in rows:
                u = r.upd.get(nm, (None, None))[1]
                si = e.seqinfo.get(u.t) if isinstance(u, Opq) else None
                if not si or si[0] != "push" or not (isinstance(si[1], Opq) and si[1].t == nm):
                    vals = None
                    break
                vals.append((r, si[2]))
            if not vals:
                continue
            if all(isinstance(v, Num) and v.p == loop.k for _, v in vals):
                ident.add(nm)
                if first:
                    ctx.violation(f"{name}|init|queue", where, f"{name}: {first} vertices are never considered as ears", {})
                R_.tag.setdefault(nm, "queue")
                nobl += 1
                continue
            if hashed and all(isinstance(v, Num) for _, v in vals):
                for r, v in vals:
                    z = S.hashes.get(repr(v.p))
                    if z is None:
                        break
                    if z[1] != vertex(r.o.st.copy(), loop.k):
                        ctx.violation(f"{name}|init|hash", where, f"{name}: the hash kept for a vertex is that of another point", {"point": S.full(z[1])})
                    zkey = z[0]
                    hash_seq = nm
                else:
                    if first:
                        ctx.violation(f"{name}|init|hashes", where, f"{name}: {first} vertices get no hash", {})
                    R_.tag[nm] = "hashes"
                    nobl += 1
    # links
    for info, os in loops_of(outs):
        for m in (n, *[Poly.atom(f"len({x})") for x in sorted(ident | ({hash_seq} if hash_seq else set()))]):
            try:
                loop, first, pat = linking(e, info, os, m, lambda s, k: k)
            except Inconclusive:
                continue
            for nm, t in pat.items():
                R_.tag[nm] = "ring " + t
                nobl += 1
                if first:
                    ctx.violation(f"{name}|init|links", where, f"{name}: {first} vertices are not linked to their neighbours", {})
            break
    if hashed:
        sorted_links(ctx, name, key, e, S, outs, R_, hash_seq, ident, where)
        box_rule(ctx, name, key, e, S, outs, R_, zkey, where)
        R_.zkey = zkey
    ctx.obligation(f"{name}: construction", rows=nobl, function=key)
    return R_


def sorted_links(ctx, name, key, e, S, outs, R_, hash_seq, ident, where):
    for info, os in loops_of(outs):
        # the linked sequence: a sorted identity
        for t in [t for t, si in list(e.seqinfo.items()) if si[0] == "perm" and isinstance(si[1], Opq) and si[1].t in ident]:
            v = Opq(t, ("adt", VECP, (("int", "usize", False),)))
            try:
                bk = [o for o in os if o.kind == "back" and o.info is info]
                m = next((x for x in (R_.n, e.seq_len(bk[0].st, v)) if walks(e, info, os, x)), None) if bk else None
                if m is None:
                    continue
                loop, first, pat = linking(e, info, os, m, lambda s, k: num(e, s, e.seq_read(s, v, k)))
            except Inconclusive:
                continue
            if not pat:
                continue
            R_.sorted = t
            for nm, tg in pat.items():
                R_.tag[nm] = "sorted " + tg
            if first:
                ctx.violation(f"{name}|init|sorted links", where, f"{name}: {first} vertices are not linked in hash order", {})
            for o in outs:
                if o.kind == "ret" and any(i is info for i in o.st.tags.get("loops", ())):
                    R_.ends = (o, v, m, dict(pat))
            # the order is by hash
            evs = [(ev, o.st) for o in bk for ev in o.st.events() if ev[0] == "perm" and ev[3] is not None]
            if evs:
                ev, s0 = evs[-1]
                order_by_hash(ctx, name, key, e, S, ev, s0, hash_seq, where, R_.vertex)
            return


def walks(e, info, os, n):
    try:
        ring_scan(e, info, os, n)
        return True
    except Inconclusive:
        return False


def order_by_hash(ctx, name, key, e, S, ev, s0, hash_seq, where, vertex):
    env = e.deref(s0, ev[3])
    if not isinstance(env, Clo):
        raise Inconclusive("sort key not recognised")
    s = s0.copy()
    u = ("int", "usize", False)
    a = [Ref(e.new_cell(s, env), (), True), Ref(e.new_cell(s, Num(Poly.atom("A"), u)), (), False)]
    nargs = ev[1].endswith("_key") and 1 or 2
    if nargs == 2:
        a.append(Ref(e.new_cell(s, Num(Poly.atom("B"), u)), (), False))
    ha, hb = Poly.atom(f"{hash_seq}[A]"), Poly.atom(f"{hash_seq}[B]")
    for o in e.run(env.key, a, s):
        if o.kind != "ret":
            continue
        v = e.deref(o.st, o.val)
        if nargs == 1:
            if not isinstance(v, Num):
                raise Inconclusive("sort key not recognised")
            own = vertex(o.st.copy(), Poly.atom("A"))
            if v.p != ha and repr(v.p) not in {f"hash[{k};{own}]" for k, _ in S.hashes.values()}:
                if v.p == ZERO - ha or "A" not in repr(v.p):
                    ctx.violation(f"{name}|init|sort", where, f"{name}: the vertices are not linked in increasing order of their hashes", {"sort key": repr(v.p)})
                else:
                    raise Inconclusive("sort key not recognised")
        else:
            m = e.possible(o.st, ha - hb)
            want = {0: NEG, 1: ZER, 2: POS}[v.v]
            if m & (NEG | POS) and m & want == 0:
                ctx.violation(f"{name}|init|sort", where, f"{name}: the vertices are not linked in increasing order of their hashes", {})
    ctx.obligation(f"{name}: the search order is the order of the hashes", rows=1, function=key)


def box_rule(ctx, name, key, e, S, outs, R_, zkey, where):
    """each bound of the box handed to the hash is at or beyond every vertex"""
    if zkey is None or zkey not in S.keys:
        raise Inconclusive("hash key not recognised")
    zb = S.keys[zkey]
    done = 0
    for info, os in loops_of(outs):
        try:
            loop, first = ring_scan(e, info, os, R_.n)
        except Inconclusive:
            continue
        rows = [r for r in loop.rows if r.kind == "back"]
        for fname, val in zb.items():
            low, ax = fname.startswith("min"), 0 if fname.endswith("x") else 1
            nm = next((p for p in info.phis.values() if val == f"poly.points[{p}].array[{ax}]" or val == f"poly.points[{p}].0[{ax}]" or val == p), None)
            if nm is None and re.fullmatch(r"poly\.points\[\d+\]\.(array|0)\[\d\]", val):
                ctx.violation(f"{name}|init|box {fname}", where, f"{name}: the {'lower' if low else 'upper'} {'xy'[ax]} bound of the box is a coordinate of one fixed vertex, whatever the others are", {"bound": val})
                done += 1
                continue
            if nm is None:
                # the bound may become a coordinate of the other axis
                full = S.full(val)
                m = re.fullmatch(r"\[poly\.points\[(\w+)\]\.(?:array|0)\[0\],poly\.points\[\1\]\.(?:array|0)\[1\]\]\[(\w+)\]", full)
                m2 = re.fullmatch(r"poly\.points\[(\w+)\]\.(?:array|0)\[(\d)\]", full)
                wrong = m and any(isinstance(r.upd[m.group(2)][1], Num) and r.upd[m.group(2)][1].p == Poly.const(1 - ax) for r in rows if m.group(2) in r.upd)
                wrong = wrong or m2 and int(m2.group(2)) != ax and any(m2.group(1) in r.upd for r in rows)
                if wrong:
                    ctx.violation(f"{name}|init|box {fname}", where, f"{name}: the {'lower' if low else 'upper'} {'xy'[ax]} bound of the box is taken from the other coordinate", {"bound": full})
                    done += 1
                    continue
            if nm is None or nm not in rows[0].upd:
                continue
            if first:
                ctx.violation(f"{name}|init|box {fname}", where, f"{name}: {first} vertices are not covered by the box the hashes are relative to", {})
                continue
            done += 1
            for r in rows:
                s = r.o.st
                i0, b = r.upd[nm]
                if not (isinstance(b, Num) and isinstance(i0, Num)):
                    raise Inconclusive("box bound not recognised")

                def coord(p):
                    if val == nm:
                        return p
                    return coords(e, s, e.deref(s, e.seq_read(s, R_.points, p)))[ax]
                cur, new = coord(phi_atom(info, nm)), coord(b.p)
                it = coords(e, s, e.deref(s, e.seq_read(s, R_.points, num(e, s, e.seq_read(s, R_.ring, loop.k)))))[ax]
                bad = POS if low else NEG
                # both bounds cover the vertices seen so far, at least one
                twin = next((p2 for p2 in info.phis.values() if p2 in r.upd and zb.get(("max" if low else "min") + fname[3:]) in (f"poly.points[{p2}].array[{ax}]", f"poly.points[{p2}].0[{ax}]")), None)
                opp = coords(e, s, e.deref(s, e.seq_read(s, R_.points, phi_atom(info, twin))))[ax] if twin and val != nm else None
                for other in (cur, it):
                    m = e.possible(s, new - other)
                    if m & bad and opp is not None:
                        # other <= twin <= bound (or the reverse)
                        a, b2 = e.possible(s, other - opp), e.possible(s, new - cur)
                        if b2 == ZER and a & (NEG if not low else POS) and not a & (POS if not low else NEG):
                            continue
                    if m & bad:
                        ctx.violation(f"{name}|init|box {fname}", where, f"{name}: the {'lower' if low else 'upper'} {'xy'[ax]} bound of the box can end up inside the range of the vertices", {})
                        break
    if done == 4:
        ctx.obligation(f"{name}: the hash box covers every vertex", rows=4, function=key)
    else:
        ctx.inconclusive(f"{name}: the hash box covers every vertex", key, "computation of the box not recognised")


# ------------------------------------------------------------------------------------ one step
def step(ctx, name, key, e, S, R_, hashed):
    P = ctx.P
    where = where_of(ctx, key)
    st = State()
    env = R_.env
    vals = []
    for i, v in enumerate(env.f):
        w = e.deref(R_.st, v)
        ty = e.typeof(w)
        h = e.mkdeep(st, f"u{i}", ty)
        vals.append(Ref(e.new_cell(st, h), (), True) if isinstance(v, Ref) else h)
    pair = []
    leaves(e, R_.st, Tup(list(env.f)), st, Tup(vals), pair)
    seq = {}
    for a, b in pair:
        t = None
        if isinstance(a, Num):
            t = "count" if a.p == R_.n else None
        elif isinstance(a, Opq):
            x, t = a.t, None
            if "[" in x and not x.startswith(("st(", "fill(")):
                t = R_.tag.get(x)
            while t is None:
                t = R_.tag.get(x)
                si = e.seqinfo.get(x)
                if t is None and si and si[0] == "fill" and si[1] is True:
                    t = "marked"
                if t is None and si and si[0] == "st" and isinstance(si[1], Opq):
                    x = si[1].t
                else:
                    break
        if hashed and t is None and isinstance(b, (Opq, Num)) and e.key(R_.st, a) == R_.zkey:
            t = "key"
        if t:
            seq.setdefault(t, b)
            R_.__dict__.setdefault("init", {})[t] = a
    if hashed and "init" in R_.__dict__ and hasattr(R_, "ends"):
        o, v, m, pat = R_.ends
        for tg, pos, word in (("next", m - ONE, "last"), ("prev", ZERO, "first")):
            a = R_.init.get("sorted " + tg)
            if a is None:
                continue
            lens = {m} | {q for f in o.st.facts if isinstance(f, Poly) for q in map(Poly.atom, f.atoms()) if e.possible(o.st, q - m) == ZER}
            at = [repr(num(e, o.st, e.seq_read(o.st, v, q))) for q in ({pos} if tg == "prev" else {x - ONE for x in lens})]
            got = None
            x = a
            while isinstance(x, Opq) and e.seqinfo.get(x.t, ("",))[0] == "st":
                si = e.seqinfo[x.t]
                if repr(si[2]) in at:
                    got = si[3]
                    break
                x = si[1]
            if not (isinstance(got, Num) and got.p == MAXU):
                if got is None and isinstance(x, Opq) and R_.tag.get(x.t) == "sorted " + tg and x is a:
                    ctx.violation(f"{name}|init|end {word}", where, f"{name}: the {word} vertex in hash order is not marked as the end of the search", {})
                else:
                    ctx.inconclusive(f"{name}: ends of the hash order", key, "end marks not recognised")
        ctx.obligation(f"{name}: ends of the hash order", rows=2, function=key)
    need = ["count", "order", "points", "queue", "marked", "ring next", "ring prev"] + (["sorted next", "sorted prev", "hashes"] if hashed else [])
    miss = [x for x in need if x not in seq]
    if miss:
        raise Inconclusive(f"state of the iterator not recognised: {miss}")
    # every list in the state must refer to the ring's points: several copies of order/points get the same name
    alias = {}
    for a, b in pair:
        if isinstance(a, Opq) and isinstance(b, Opq):
            t = R_.tag.get(a.t)
            if t in ("order", "points") and b.t != seq[t].t:
                alias[b.t] = seq[t]
    if alias:
        vals = [subst(e, st, v, alias) for v in vals]
    if hashed:
        R_.keyname = e.key(st, seq["key"]) if "key" in seq else None
    r = Ref(e.new_cell(st, Clo(env.key, vals)), (), True)
    fn = env.key
    e.unknown.clear()
    outs = e.run(fn, [r], st)
    if e.unknown:
        raise Inconclusive(f"calls without a model: {sorted(map(str, e.unknown))[:3]}")
    C = Ctl(ctx, name, key, e, S, R_, seq, where, outs, r, vals)
    C.decide(hashed)


def subst(e, st, v, alias):
    if isinstance(v, Ref):
        w = e.deref(st, v)
        x = subst(e, st, w, alias)
        return v if x is w else Ref(e.new_cell(st, x), (), v.m)
    if isinstance(v, Opq) and v.t in alias:
        return alias[v.t]
    if isinstance(v, (Adt, Tup)):
        f = [subst(e, st, x, alias) for x in v.f]
        if all(x is y for x, y in zip(f, v.f)):
            return v
        return Adt(v.path, v.v, f, v.ty) if isinstance(v, Adt) else Tup(f)
    return v


class Ctl:
    def __init__(self, ctx, name, key, e, S, R_, seq, where, outs, r, vals):
        self.__dict__.update(ctx=ctx, name=name, key=key, e=e, S=S, R_=R_, seq=seq, where=where, outs=outs, r=r, vals=vals)

    def bad(self, what, msg, detail=None):
        self.ctx.violation(f"{self.name}|{what}", self.where, f"{self.name}: {msg}", detail or {})

    def at(self, st, role, i):
        return num(self.e, st, self.e.seq_read(st, self.seq[role], i))

    def vertex(self, st, i):
        e = self.e
        return self.S.point(st, e.deref(st, e.seq_read(st, self.seq["points"], num(e, st, e.seq_read(st, self.seq["order"], i)))))

    def focus(self, o):
        """the candidate taken from the queue on this path"""
        evs = [ev for ev in o.st.events() if ev[0] in ("remove", "pop")]
        if not evs:
            return None
        ev = evs[-1]
        v = self.e.seq_read(o.st, ev[1], ev[2]) if ev[0] == "remove" else ev[2]
        return v.p if isinstance(v, Num) else None

    def mentions(self, st, nm):
        """facts about a point other than its triangle location"""
        full = self.S.full(nm)
        bounds = {f: far(f, m) for f, m in st.facts.items()}
        sides = {b for b in bounds.values() if b}
        for f in st.facts:
            if isinstance(f, Poly):
                if bounds[f] and (bounds[f][0], -bounds[f][1]) not in sides:
                    continue
                for a in f.atoms():
                    x = self.S.full(str(a))
                    if full in x and not x.startswith("len("):
                        if x.startswith(("turn[", "dist[", "angle[")) or ".array[" in x or "].0[" in x:
                            return True
        return False

    def decide(self, hashed):
        e, S, ctx, name = self.e, self.S, self.ctx, self.name
        count = self.seq["count"].p
        names = S.locnames()
        if names is None:
            raise Inconclusive("no vertex is located relative to the candidate triangle")
        self.out_i = names.index("Outside")
        emits, rejects, nones = [], [], []
        outer = None
        for o in self.outs:
            if o.kind == "ret":
                v = e.deref(o.st, o.val)
                (emits if isinstance(v, Adt) and v.v == 1 else nones).append(o)
        for o in nones:
            m = e.possible(o.st, count - TWO)
            if m & POS:
                self.bad("stop", "the iteration can end while more than two vertices remain")
        for o in emits:
            if e.possible(o.st, count - TWO) & (NEG | ZER):
                self.bad("stop late", "a triangle can be emitted when only two vertices remain")
        if not emits:
            raise Inconclusive("no path emits a triangle")
        loops = loops_of(self.outs)
        outer = [info for info, os in loops if all(any(i is info for i in o.st.tags.get("loops", ())) for o in emits) and any(
            isinstance(x, Opq) and x.t == self.focus_seq(emits[0]) for x in [Opq(p, None) for p in info.phis.values()])]
        inner = [(info, os) for info, os in loops if info not in outer]
        backs = {id(info): [o for o in os if o.kind == "back" and o.info is info] for info, os in loops}
        self.inner, self.backs = inner, backs
        rejects = [o for info in outer for o in backs[id(info)]]
        rows = 0
        for o in emits:
            self.emit(o, hashed)
            rows += 1
        for info, os in inner:
            for o in backs[id(info)]:
                self.pass_row(info, o, hashed)
                rows += 1
        for o in rejects:
            self.reject(o)
            rows += 1
        ctx.obligation(f"{name}: one step from any state", rows=rows, function=self.key)

    def focus_seq(self, o):
        evs = [ev for ev in o.st.events() if ev[0] in ("remove", "pop")]
        return evs[-1][1].t if evs and isinstance(evs[-1][1], Opq) else None

    def triple(self, o):
        x = self.focus(o)
        if x is None:
            raise Inconclusive("the candidate was not recognised")
        return self.at(o.st, "ring prev", x), x, self.at(o.st, "ring next", x)

    # ---- a triangle is emitted
    def emit(self, o, hashed):
        e, S = self.e, self.S
        st = o.st.copy()
        p, x, q = self.triple(o)
        if any(e.possible(st, i - MAXU) == ZER for i in (p, q)) or e.possible(st, p - q) == ZER:
            return  # never happens: both index the order list, and three or more vertices are linked
        ids = [e.key(st, e.seq_read(st, self.seq["order"], i)) for i in (p, x, q)]
        v = e.deref(st, e.deref(st, o.val).f[0])
        got = [e.key(st, e.deref(st, y)) for y in getattr(v, "f", [])]
        if len(got) != 3:
            raise Inconclusive("emitted triangle not recognised")
        if got not in (ids, ids[1:] + ids[:1], ids[2:] + ids[:2]):
            if set(got) == set(ids):
                self.bad("winding", "the corners of a triangle are emitted in clockwise order")
            elif all(g.startswith(self.seq["order"].t + "[") or g.startswith("<" + self.seq["order"].t) for g in got):
                self.bad("corners", "the emitted corners are not the ear and its two neighbours", {"emitted": got, "expected": ids})
            else:
                raise Inconclusive("emitted triangle not recognised")
        names = [self.vertex(st, i) for i in (p, x, q)]
        t = S.turn_mask(st, *names)
        if t == NEG | ZER | POS:
            if any(self.mentions(st, nm) for nm in names):
                self.ctx.inconclusive(self.name, self.key, "the turn at an ear is decided in a way that was not recognised")
            else:
                self.bad("turn", "a corner is cut off without requiring a left turn")
        elif t != POS:
            self.bad("turn", f"a corner that {'is straight' if t & ZER else 'turns right'} can be cut off as an ear")
        self.walks(o, st, p, x, q, hashed)
        self.update(o, st, p, x, q, hashed)

    def chains(self, o, st):
        """walks on this path: [(link role, start, final position, [loops])]"""
        e = self.e
        res, cur = [], {}
        for info in o.st.tags.get("loops", ()):
            bk = self.backs.get(id(info), [])
            if not any(i is info for i, _ in self.inner) or not bk:
                continue
            ups = [(b, e.phi_updates(info, b.st)) for b in bk]
            for ph in info.phis.values():
                if not all(ph in u for _, u in ups):
                    continue
                i0 = ups[0][1][ph][0]
                if not isinstance(i0, Num):
                    continue
                ka = phi_atom(info, ph)
                roles = set()
                for b, u in ups:
                    a = u[ph][1]
                    roles.add(next((r for r in ("ring next", "ring prev", "sorted next", "sorted prev") if r in self.seq and isinstance(a, Num) and a.p == self.at(b.st.copy(), r, ka)), "same" if isinstance(a, Num) and a.p == ka else None))
                roles.discard("same")
                if len(roles) != 1 or None in roles:
                    continue
                res.append((roles.pop(), i0.p, ka, info))
        # join loops that continue one another
        joined = True
        while joined:
            joined = False
            for a in res:
                for b in res:
                    if a is not b and a[0] == b[0] and b[1] == a[2]:
                        res.remove(a), res.remove(b)
                        res.append((a[0], a[1], b[2], b[3]))
                        joined = True
                        break
                if joined:
                    break
        return res

    def walks(self, o, st, p, x, q, hashed):
        e, S = self.e, self.S
        ch = self.chains(o, st)
        full = False
        for role, start, end, info in ch:
            if not role.startswith("ring"):
                continue
            fwd = role.endswith("next")
            a, z = (q, p) if fwd else (p, q)
            starts = [self.at(st, role, a), a, x]
            if start not in starts:
                if start == self.at(st, role, self.at(st, role, a)):
                    self.bad("walk start", "the first of the remaining vertices is not examined before an ear is cut off")
                    return
                continue
            if e.possible(st, end - z) == ZER or e.possible(st, end - x) == ZER:
                full = True
            else:
                k = self.capped(st, end, info)
                if k:
                    self.bad("walk end", f"the examination of the remaining vertices can stop early ({k})")
                    return
        if full:
            return
        if not hashed:
            if not ch:
                if not any(self.S.located[nm] for nm in self.S.located if ("choice", nm) in st.facts) and not self.inner:
                    self.bad("walk", "an ear is cut off without examining the remaining vertices")
                    return
                if not any(i is k for i in st.tags.get("loops", ()) for k, _ in self.inner) and not any(("choice", nm) in st.facts for nm in S.located):
                    # nothing was examined here: nothing may be left
                    if any(e.possible(st, self.at(st, r, a) - z) == ZER for r, a, z in (("ring next", q, p), ("ring prev", p, q))) \
                            or not e.possible(st, self.seq["count"].p - Poly.const(3)) & POS:
                        return
                    self.bad("walk", "an ear is cut off without examining the remaining vertices, on a path that does not know that none remain")
                    return
            raise Inconclusive("walk over the remaining vertices not recognised")
        for role in ("sorted next", "sorted prev"):
            c = [y for y in ch if y[0] == role]
            first = self.at(st, role, x)
            word = "above" if role.endswith("next") else "below"
            ends = []
            if not c:
                ends.append((first, None))
            for _, start, end, info in c:
                if start != first:
                    if start == self.at(st, role, first):
                        self.bad(f"hash walk start {word}", f"the vertex with the hash just {word} the ear's is not examined")
                        return
                    raise Inconclusive("start of the hash walk not recognised")
                ends.append((end, info))
            ok = False
            for end, info in ends:
                if e.possible(st, end - MAXU) == ZER:
                    ok = True
                    continue
                h = self.at(st, "hashes", end)
                for nm, z in self.hash_bounds(st, x, p, q):
                    m = e.possible(st, h - z)
                    if nm == "max" and m == POS or nm == "min" and m == NEG:
                        ok = True
                    elif m != NEG | ZER | POS and m & ZER and m & (POS if nm == "max" else NEG) and not m & (NEG if nm == "max" else POS):
                        self.bad(f"hash walk bound {word}", f"vertices whose hash equals the {nm}imum hash of the triangle's box are not examined")
                        return
            if ok:
                continue
            for end, info in ends:
                if info is not None:
                    k = self.capped(st, end, info)
                    if k:
                        self.bad(f"hash walk end {word}", f"the examination of the vertices with hashes {word} the ear's can stop early ({k})")
                        return
            if not c and not any(self.at(st, role, first) == z for z in ()) and not self.touched(st, first):
                self.bad(f"hash walk {word}", f"the vertices with hashes {word} the ear's are not examined before it is cut off")
                return
            raise Inconclusive("end of the hash walk not recognised")

    def touched(self, st, pos):
        """some fact concerns the position itself"""
        t = repr(pos)
        return any(isinstance(f, Poly) and any(t in self.S.full(str(a)) for a in f.atoms()) and not any(str(a).startswith("len(") for a in f.atoms()) for f in st.facts)

    def capped(self, st, end, info):
        e = self.e
        bk = self.backs[id(info)]
        ups = [e.phi_updates(info, b.st) for b in bk]
        for ph, (i0, _) in ups[0].items():
            if not isinstance(i0, Num) or not i0.p.is_const() or not all(ph in u and isinstance(u[ph][1], Num) for u in ups):
                continue
            ka = phi_atom(info, ph)
            if any((u[ph][1].p - ka) not in (ONE, ZERO - ONE) for u in ups):
                continue
            if any(isinstance(f, Poly) and f.atoms() == ka.atoms() and e.possible(st, f) != POS | NEG | ZER for f in st.facts if f not in info.start.facts):
                return "after a fixed number of vertices"
        return None

    def hash_bounds(self, st, x, p, q):
        """hashes of the corners of the candidate triangle's box under the same key"""
        names = {self.vertex(st.copy(), i) for i in (p, x, q)}
        out = []
        for z, (k, pt) in self.S.hashes.items():
            for bx, tri in self.S.boxes.items():
                if set(tri) == names and k == self.R_.keyname:
                    if pt == self.S.intern(f"{bx}.0"):
                        out.append(("min", self.S.hpoly[z]))
                    elif pt == self.S.intern(f"{bx}.1"):
                        out.append(("max", self.S.hpoly[z]))
        return out

    # ---- a vertex is passed over
    def pass_row(self, info, o, hashed):
        e, S = self.e, self.S
        st = o.st.copy()
        up = e.phi_updates(info, o.st)
        try:
            p, x, q = self.triple(o)
        except Inconclusive:
            return
        for ph, (i0, b) in up.items():
            ka = phi_atom(info, ph)
            if not isinstance(b, Num) or b.p == ka or not isinstance(i0, Num):
                continue
            role = next((r for r in ("ring next", "ring prev", "sorted next", "sorted prev") if r in self.seq and b.p == self.at(st, r, ka)), None)
            if role is None:
                # two links at once
                for r in ("ring next", "ring prev", "sorted next", "sorted prev"):
                    if r in self.seq and b.p == self.at(st, r, self.at(st, r, ka)):
                        mid = self.vertex(st, self.at(st, r, ka))
                        if not self.decided(st, mid):
                            self.bad("skip", "every other vertex is left out when the remaining vertices are examined")
                continue
            if any(e.possible(st, ka - y) == ZER for y in (p, x, q)):
                continue
            nm = self.vertex(st, ka)
            got = self.decided(st, nm)
            if got is None:
                if self.mentions(st, nm) :
                    self.ctx.inconclusive(self.name, self.key, "a vertex is passed over for a reason that was not recognised")
                elif role.startswith("sorted") and any(repr(self.at(st, "hashes", ka)) in str(a) for f in st.facts if isinstance(f, Poly) for a in f.atoms()) and any(
                        e.possible(st, self.at(st, "hashes", ka) - z) == (POS if t == "max" else NEG) for t, z in self.hash_bounds(st, x, p, q)):
                    continue
                else:
                    self.bad("passed over", "a remaining vertex is passed over without being located relative to the ear")
            elif got != self.out_i:
                self.bad(f"passed {got}", f"a corner counts as an ear although a remaining vertex is {S.locnames()[got]}")

    def decided(self, st, nm):
        for z, (t, pt) in self.S.located.items():
            if pt == nm and ("choice", z) in st.facts:
                return st.facts[("choice", z)]
        return None

    # ---- the candidate is rejected
    def reject(self, o):
        e, S = self.e, self.S
        st = o.st.copy()
        p, x, q = self.triple(o)
        names = [self.vertex(st, i) for i in (p, x, q)]
        t = S.turn_mask(st, *names)
        if not t & POS:
            return
        hits = [pt for z, (tr, pt) in S.located.items() if ("choice", z) in st.facts and st.facts[("choice", z)] != self.out_i]
        if hits:
            return
        if t != POS:
            self.ctx.inconclusive(self.name, self.key, "a candidate is rejected for a reason that was not recognised")
            return
        others = {pt for tr, pt in S.located.values()}
        if any(self.mentions(st, nm) for nm in others):
            self.ctx.inconclusive(self.name, self.key, "a candidate is rejected for a reason that was not recognised")
            return
        self.bad("reject", "a candidate is rejected although it turns left and no remaining vertex was found in its triangle")

    # ---- bookkeeping after an emission
    def update(self, o, st, p, x, q, hashed):
        e = self.e
        now = e.deref(st, self.r)
        pair = []
        st0 = State()
        leaves(e, o.st, Tup(list(self.vals)), o.st, Tup(list(now.f)), pair)
        after = {}
        for a, b in pair:
            for role, v in self.seq.items():
                if (isinstance(a, Opq) and isinstance(v, Opq) and a.t == v.t) or (role == "count" and isinstance(a, Num) and a.p == v.p):
                    after.setdefault(role, b)
        c = after.get("count")
        if not isinstance(c, Num):
            raise Inconclusive("count of the remaining vertices not recognised")
        if c.p != self.seq["count"].p - ONE:
            self.bad("count", "the count of remaining vertices does not go down by one with each triangle", {"after": repr(c.p)})
        j = Poly.atom("j")
        for lst in ("ring", "sorted") if hashed else ("ring",):
            for role, at, to in ((f"{lst} next", f"{lst} prev", f"{lst} next"), (f"{lst} prev", f"{lst} next", f"{lst} prev")):
                a, t = self.at(st, at, x), self.at(st, to, x)
                if e.possible(st, a - MAXU) == ZER:
                    continue
                s2 = st.copy()
                v = e.seq_read(s2, after[role], a)
                if not isinstance(v, Num):
                    raise Inconclusive("links not recognised")
                m = e.possible(s2, v.p - t)
                if m != ZER:
                    if v.p == self.at(st, role, a) or m & ZER == 0:
                        self.bad(f"unlink {role}", f"a cut off vertex stays linked from its neighbour ({lst} order, {role.split()[1]})", {"link": repr(v.p), "expected": repr(t)})
                    else:
                        self.ctx.inconclusive(self.name, self.key, "links after a cut not recognised")
        # the queue: what was taken is unmarked, unmarked neighbours are marked and queued once
        marks = after["marked"]

        pushes = [ev[2].p for ev in o.st.events() if ev[0] == "push" and isinstance(ev[2], Num)]
        for i, word in ((p, "previous"), (q, "next")):
            now_ = self.mark(marks, i)
            queued = sum(1 for y in pushes if y == i)
            was = [v for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "bool" and str(k[1]).endswith(f"[{i}]")]
            if queued > 1 or queued and True in was:
                self.bad(f"queue {word}", f"the {word} neighbour of an ear can be queued twice")
            elif not queued and not was:
                self.bad(f"queue {word}", f"the {word} neighbour of an ear is not reconsidered")
            elif not queued and False in was:
                self.bad(f"queue {word}", f"the {word} neighbour of an ear is not reconsidered although it is not queued")
            elif queued and now_ is not True:
                self.bad(f"mark {word}", f"the {word} neighbour of an ear is queued without being marked as queued")
        if self.mark(marks, x) is not False:
            self.bad("mark taken", "a candidate taken from the queue stays marked as queued")

    def mark(self, v, i):
        """the value stored at i by the latest store there (vertices of the triangle are distinct), None without one"""
        while isinstance(v, Opq):
            si = self.e.seqinfo.get(v.t)
            if not si or si[0] != "st":
                return None
            if si[2] == i:
                return si[3]
            v = si[1]
        return None


def hashing(ctx, e, S):
    P = ctx.P
    S.hashes, S.hpoly, S.keys = {}, {}, {}

    def zfn(eng, s, args, c, dty, fr, sp):
        k, pt = e.key(s, e.deref(s, args[0])), S.points_in(s, args[1])
        nm = f"hash[{k};{'|'.join(pt)}]"
        v = e.mkdeep(s, nm, dty)
        S.hashes[repr(v.p)] = (k, pt[0])
        S.hpoly[repr(v.p)] = v.p
        return [(v, s)]

    def zkey(eng, s, args, c, dty, fr, sp):
        b = e.deref(s, args[0])
        fs = [f["n"] for f in P.adts[b.path]["variants"][0]["f"]]
        vals = {}
        for fn, x in zip(fs, b.f):
            w = e.deref(s, x)
            vals[fn] = repr(w.p) if isinstance(w, Num) else e.key(s, w)
        nm = S.intern("key[" + "|".join(f"{a}={b_}" for a, b_ in vals.items()) + "]")
        v = Opq(nm, dty)
        S.keys[e.key(s, v)] = vals
        return [(v, s)]
    e.models[ZT + "::zhash_fn"] = zfn
    e.models[ZT + "::zhash_key"] = zkey


def run(ctx):
    for fn, hashed in (("earclip", False), ("earclip_hashed", True)):
        key = ctx.one(EAR + fn)
        if not key:
            continue
        e = ctx.engine()
        S = setup(ctx, e)
        if hashed:
            hashing(ctx, e, S)
        try:
            R_ = construct(ctx, fn, key, e, S, hashed)
            step(ctx, fn, key, e, S, R_, hashed)
        except Inconclusive as x:
            ctx.inconclusive(fn, key, str(x))
