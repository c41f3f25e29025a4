from geo import *
from polyg import *
from stubs import Stubs, far
from loops import loops_of, ring_loop, ring_scan, phi_atom
from engine import Inconclusive, State
from ctx import nogen
from spec import facts_str

LEVEL = "other"
EXPLANATION = ("get_visibility_polygon is analysed as nested inductions over its loops with the geometric predicates summarised as named decisions: one symbolic step "
               "over the edges (which side is blocked, by which point, kept when nearer), one over the directions (which points are added), the order and thinning "
               "of the directions, the coverage of vertices and edges, and the points handed to the result."
               " Every return before the scans has to be one whose answer is forced by the facts decided on its path.")
ASSUMPTIONS = ["what the ray/edge intersection, distance and angle predicates compute is decided by C02, C04 and C07", "sorting sorts by the comparator",
               "polygons with holes are outside: only the outer boundary is considered by the routine"]
VIS = R + "algorithms::visibility::naive::get_visibility_polygon"
HL, LN, DIR = R + "data::line::HalfLineSoS", R + "data::line::Line", R + "data::line::Direction"
ISECTS = R + "intersection::Intersects"


def is_(p):
    def f(t):
        while t and t[0] == "ref":
            t = t[1]
        return bool(t) and t[0] == "adt" and t[1] == p
    return f


def setup(ctx):
    P = ctx.P
    key = ctx.one(VIS)
    if not key:
        return None
    e, st = ctx.engine(), State()
    S = Stubs(ctx, e)
    S.orient(), S.angle_order(), S.distance_order()
    b = P.body(key)
    args = [e.mkdeep(st, "o", b["locals"][1]), e.mkdeep(st, "polygon", b["locals"][2])]
    pref = args[1]
    i_poly, i_pos = cursor_parts(P)

    def concrete(s, v):
        r = e.project(s, v, (".", i_poly))
        return isinstance(r, Ref) and e.deref(s, r) is e.deref(s, pref)
    S.cursors(concrete)
    calls = {}

    def hit(eng, s, a, c, dty, fr, sp):
        ray, edge = S.points_in(s, a[0]), S.points_in(s, a[1])
        nm = S.intern(f"hit[{'|'.join(ray)};{'|'.join(edge)}]")
        calls[nm] = ("hit", ray, edge)
        opt = lambda v: Adt("core::option::Option", 1, [Adt(R + "data::line::IHalfLineLineSegmentSoS", 0, [v], None)], dty)
        out = []
        for i, x in S.choice(s, nm, 4):
            out.append((Adt("core::option::Option", 0, [], dty) if i == 0 else opt(S.orientation({1: 1, 2: -1, 3: 0}[i])), x))
        return out
    S.on(hit, trait=ISECTS, name="intersect", self_ty=is_(HL))

    def cross(eng, s, a, c, dty, fr, sp):
        l, m = S.points_in(s, a[0]), S.points_in(s, a[1])
        nm = S.intern(f"cross[{'|'.join(l)};{'|'.join(m)}]")
        calls[nm] = ("cross", l, m)
        return [(Adt("core::option::Option", 1, [e.mkdeep(s, nm, PT_TY)], dty), s)]
    S.on(cross, path=LN + "::intersection_point")

    def along(eng, s, a, c, dty, fr, sp):
        p = [x for v in a for x in S.points_in(s, v)]
        nm = S.intern(f"along[{'|'.join(p)}]")
        calls[nm] = ("along", p)
        return [(S.orientation({0: 0, 1: 1, 2: -1}[i]), x) for i, x in S.choice(s, nm, 3)]
    S.on(along, path=POINT + "::orient_along_direction")
    news = []

    def new(eng, s, a, c, dty, fr, sp):
        news.append((a[0], s))
        return [(Adt("core::result::Result", 0, [Adt(POLY, 0, [a[0], Tup([]), Tup([]), Tup([])], dty)], dty), s),
                (Adt("core::result::Result", 1, [Opq("err", ("any",))], dty), s)]
    S.on(new, path=POLY + "::new")
    outs = e.run(key, args, st)
    return key, e, S, st, args, outs, calls


def where_of(ctx, key):
    return ctx.where(ctx.P.fns[key])


def chain(e, v):
    """(operation, sequence before it) of a derived sequence, outermost first; ends at a sequence of its own"""
    out = []
    while isinstance(v, Opq):
        i = e.seqinfo.get(v.t)
        if i is None or i[0] not in ("perm", "subset", "rev"):
            break
        out.append((v.t.split("(", 1)[0], i[1]))
        v = i[1]
    return out, v


def closure_rows(ctx, e, S, st, clo):
    """outcomes of a two-argument closure on two distinct vertices A and B"""
    s = st.copy()
    env = e.deref(s, clo)
    if not isinstance(env, Clo):
        raise Inconclusive("comparison closure not recognised")
    args = [Ref(e.new_cell(s, env), (), True)] + [Ref(e.new_cell(s, Opq(n, CUR_TY)), (), True) for n in ("A", "B")]
    return e.run(env.key, args, s)


def bool_of(e, o):
    v = e.deref(o.st, o.val)
    return v if isinstance(v, bool) else None


ALL = NEG | ZER | POS
ORDN = {0: -1, 1: 0, 2: 1}


def sort_rule(ctx, key, e, S, clo, st):
    """by angle around the origin, nearer first on a common ray; returns True when ties are broken by distance"""
    name, bad = "visibility sort", None
    for o in closure_rows(ctx, e, S, st, clo):
        if o.kind == "panic":
            continue
        v = e.deref(o.st, o.val)
        if o.kind != "ret" or not isinstance(v, Adt):
            raise Inconclusive("comparison result not recognised")
        got = ORDN[v.v]
        a, d = S.order_mask(o.st, "angle", ["o"], "A", "B"), S.order_mask(o.st, "dist", ["o"], "A", "B")
        want = {-1: NEG, 0: ZER, 1: POS}
        if a == ALL:
            raise Inconclusive("the sort does not compare angles")
        if a & (NEG | POS) & ~want[got]:
            return "vertices are not ordered by their angle around the origin"
        if a & ZER and d & (NEG | POS) & ~want[got]:
            bad = "of the vertices on one ray the nearest is not first"
    return bad


def dedup_rule(ctx, key, e, S, clo, st):
    for o in closure_rows(ctx, e, S, st, clo):
        if o.kind == "panic":
            continue
        got = bool_of(e, o)
        a = S.order_mask(o.st, "angle", ["o"], "A", "B")
        if o.kind != "ret" or got is None or a == ALL:
            raise Inconclusive("the condition for dropping a vertex was not recognised")
        if got and a != ZER or not got and a & ZER:
            return "vertices are dropped although no other vertex lies on their ray" if got else "vertices on one ray are not reduced to one"
    return None


def option_phis(e, rows):
    out = {}
    for r in rows:
        for n, (i, b) in r.upd.items():
            if isinstance(i, Adt) and i.path.endswith("option::Option") and i.v == 0:
                out[n] = i
    return sorted(out)


def payload(e, S, st, v):
    """name of the point inside an optional value known to be present"""
    v = e.deref(st, v)
    if isinstance(v, Opq) and v.t in e.alts and 1 in e.alts[v.t]:
        v = e.alts[v.t][1]
    elif isinstance(v, Opq):
        return S.point(st, e.project(st, e.project(st, v, ("v", 1)), (".", 0)))
    if isinstance(v, Adt) and v.f:
        return S.point(st, v.f[0])
    raise Inconclusive("optional point not recognised")


def raw(o):
    """the path depends on coordinate arithmetic outside the summarised predicates; bounds that any configuration
    satisfies after moving it far enough in one direction decide nothing"""
    sides = set()
    for k, m in o.st.facts.items():
        b = far(k, m)
        if b is not None:
            sides.add(b)
            continue
        if isinstance(k, Poly) and any(".array[" in str(a) and "[" not in str(a).split(".array[")[0][-1:] and not str(a).startswith(("len", "turn[", "dist[", "angle[")) for a in k.atoms()):
            return True
    return any((ax, -d) in sides for ax, d in sides)


def unbound(o):
    """the path knows nothing but lengths and bounds that any configuration satisfies after moving it"""
    return not raw(o) and not any(isinstance(k, tuple) and k[0] in ("choice", "variant") or isinstance(k, Poly) and far(k, m) is None and any(not str(a).startswith("len(") for a in k.atoms())
                                  for k, m in o.st.facts.items())


def large(k, m):
    """a fact about lengths that long lists satisfy"""
    v = sum(c * 1000 ** len(mono) for mono, c in k.t)
    return bool((NEG if v < 0 else POS if v > 0 else ZER) & m)


def decide(ctx):
    x = setup(ctx)
    if x is None:
        return
    key, e, S, st, args, outs, calls = x
    P = ctx.P
    if e.unknown:
        ctx.inconclusive("visibility", key, f"calls without a model: {sorted(map(str, e.unknown))[:3]}")
        return
    where = where_of(ctx, key)
    pg = Poly_.__new__(Poly_)
    loops = loops_of(outs)

    def own(info, os):
        return [o for o in os if o.kind == "back" and o.info is info]
    inner = outer = None
    for info, os in loops:
        bk = own(info, os)
        if any(k[0] == "choice" and k[1] in calls and calls[k[1]][0] == "hit" for o in bk for k in o.st.facts if isinstance(k, tuple)):
            if any(any(i is info for i in p.st.tags.get("loops", ())) for j, q in loops for p in own(j, q) if j is not info):
                inner = (info, os)
    if inner is None:
        raise Inconclusive("the loop over the edges was not recognised")
    for info, os in loops:
        if info is not inner[0] and any(any(i is inner[0] for i in o.st.tags.get("loops", ())) for o in own(info, os)):
            outer = (info, os)
    if outer is None:
        raise Inconclusive("the loop over the directions was not recognised")
    rings = e.deref(st, args[1])
    i_rings = field_index(P, POLY, lambda t: vec_of(t) is not None and vec_of(vec_of(t)) is not None and is_adt(PTID)(vec_of(vec_of(t))), "rings")
    i_points = field_index(P, POLY, lambda t: vec_of(t) is not None and is_adt(POINT)(vec_of(t)), "points")
    ring = e.seq_read(st, e.deref(st, e.project(st, rings, (".", i_rings))), Poly.const(0))
    points = e.deref(st, e.project(st, rings, (".", i_points)))
    n = e.seq_len(st, ring)

    def vertex_name(s, k):
        return S.point(s, e.deref(s, e.seq_read(s, points, num(e, s, e.seq_read(s, ring, k)))))

    # ---- every boundary edge is looked at, for each side separately
    info, os = inner
    loop, first = ring_scan(e, info, os, n)
    if first:
        ctx.violation(f"edges|{key}", where, f"visibility: the search for blocking edges leaves out {first} boundary edge(s)", {})
        return
    rows = [r for r in loop.rows if r.kind == "back"]
    early = [r for r in loop.rows if r.kind == "early" and r.o.kind != "panic"]
    if early:
        ctx.violation(f"edges|{key}|early", where, "visibility: the search for blocking edges can end before all boundary edges were looked at", {})
        return
    opts = option_phis(e, rows)
    if len(opts) != 2:
        raise Inconclusive("nearest points of the two sides not recognised")

    # ---- what is kept for each direction
    oinfo, oos = outer
    oback = own(oinfo, oos)
    first_push = set()
    hitname = {k[1] for r in rows for k in r.o.st.facts if isinstance(k, tuple) and k[0] == "choice" and k[1] in calls and calls[k[1]][0] == "hit"}
    rays = {tuple(calls[h][1]) for h in hitname}
    if len(rays) != 1 or len(next(iter(rays))) != 2:
        raise Inconclusive("the ray was not recognised")
    origin, through = next(iter(rays))
    if origin != "o":
        ctx.violation(f"ray|{key}", where, "visibility: rays do not start at the given point", {"origin": S.full(origin)})
        return
    names = {}
    for o in oback:
        for q in opts:
            names.setdefault(q, payload(e, S, o.st, Opq(q, e.typeof(rows[0].upd[q][0]))))
    pushed = {}
    for o in oback:
        ps = [S.point(o.st, ev[2]) for ev in o.st.events() if ev[0] == "push" and not any(i is not oinfo for i in ())]
        pushed[id(o)] = ps
    inv = {v: q for q, v in names.items()}
    full = [pushed[id(o)] for o in oback if len(pushed[id(o)]) == 2]
    if any(x not in inv for ps in pushed.values() for x in ps):
        bad = next(x for ps in pushed.values() for x in ps if x not in inv)
        if bad == through or bad in S.long and S.full(bad) == S.full(through):
            ctx.violation(f"points|{key}|vertex", where, "visibility: a vertex is added to the result instead of the nearest blocking point", {})
            return
        raise Inconclusive(f"an added point is neither of the two nearest points: {S.full(bad)[:80]}")
    if not full:
        raise Inconclusive("no path adds the nearest points of both sides")
    right = None
    # the side whose nearest point a clockwise touch changes is the right one
    moved = {q: set() for q in opts}
    for r in rows:
        h = next((r.o.st.facts[("choice", k)] for k in hitname if ("choice", k) in r.o.st.facts), None)
        for q in opts:
            v = r.upd[q][1]
            if not (isinstance(v, Opq) and v.t == q):
                moved[q].add(h)
    rs = [q for q in opts if 2 in moved[q] and 1 not in moved[q]]
    ls = [q for q in opts if 1 in moved[q] and 2 not in moved[q]]
    if len(rs) == 1 and len(ls) == 1:
        right, left = rs[0], ls[0]
    else:
        right = inv[full[0][0]]
        left = next(q for q in opts if q != right)

    # ---- update table of one edge
    nrows = 0
    for r in rows:
        s = r.o.st
        hs = [k for k in hitname if ("choice", k) in s.facts]
        if len(hs) != 1:
            ctx.violation(f"edges|{key}|skip", where, "visibility: a boundary edge can be passed over without intersecting it with the ray", {}) if not raw(r.o) else ctx.inconclusive("visibility edges", key, "an edge is skipped")
            continue
        h = s.facts[("choice", hs[0])]
        edge = calls[hs[0]][2]
        want_src = vertex_name(s.copy(), loop.k)
        if len(edge) != 2 or edge[0] != want_src:
            raise Inconclusive("the intersected edge was not recognised")
        for q, sides in ((right, (2, 3)), (left, (1, 3))):
            nrows += 1
            role = "right" if q == right else "left"
            after = r.upd[q][1]
            same = isinstance(after, Opq) and after.t == q
            had = s.facts.get(("variant", q))
            if h not in sides:
                if not same:
                    ctx.violation(f"update|{key}|{role}|{h}", where, f"visibility: an edge that does not block the {role} side changes the nearest point of that side", {"crossing": h})
                continue
            if h == 3:
                cands = [k for k, c in calls.items() if c[0] == "cross" and {tuple(c[1]), tuple(c[2])} == {("o", through), tuple(edge)}]
            else:
                al = [k for k, c in calls.items() if c[0] == "along" and ("choice", k) in s.facts and c[1][-1] in edge]
                cands = []
                for k in al:
                    c, v = calls[k][1], s.facts[("choice", k)]
                    other = edge[0] if c[-1] == edge[1] else edge[1]
                    cands.append(c[-1] if v == 0 else other)
            if not cands:
                raise Inconclusive("the blocking point was not recognised")
            cand = cands[0]
            if same:
                if had == 0:
                    ctx.violation(f"update|{key}|{role}|first", where, f"visibility: the first blocking point on the {role} side is not recorded", {"crossing": h})
                    continue
                d = S.order_mask(s, "dist", ["o"], cand, names[q])
                if d == ALL:
                    if any(S.order_mask(s, "dist", ["o"], x, names[q]) != ALL for x in edge):
                        ctx.violation(f"update|{key}|{role}|point{h}", where, f"visibility: the point considered for the {role} side is not the blocking point", {"expected": S.full(cand)[:120]})
                        continue
                    if raw(r.o):
                        raise Inconclusive("distance comparison not recognised")
                    ctx.violation(f"update|{key}|{role}|ignored", where, f"visibility: a blocking point on the {role} side is ignored without comparing its distance", {"crossing": h})
                elif d & NEG:
                    ctx.violation(f"update|{key}|{role}|farther", where, f"visibility: a nearer blocking point on the {role} side does not replace a farther one", {"crossing": h})
                continue
            got = payload(e, S, s, after)
            if got != cand:
                ctx.violation(f"update|{key}|{role}|point{h}", where, f"visibility: the point recorded for the {role} side is not the blocking point", {"recorded": S.full(got)[:120], "expected": S.full(cand)[:120]})
                continue
            if had == 0:
                continue
            d = S.order_mask(s, "dist", ["o"], cand, names[q])
            if d == ALL:
                if raw(r.o):
                    raise Inconclusive("distance comparison not recognised")
                ctx.violation(f"update|{key}|{role}|always", where, f"visibility: a blocking point on the {role} side replaces the previous one without being nearer", {"crossing": h})
            elif d & POS:
                ctx.violation(f"update|{key}|{role}|nearer", where, f"visibility: a farther blocking point on the {role} side replaces a nearer one", {"crossing": h})
    ctx.obligation("visibility: nearest blocking point per side over all boundary edges", rows=nrows, function=key)

    # ---- which points a direction contributes
    for o in oos:
        if o.kind == "panic":
            continue
        if any(i is inner[0] for i in o.st.tags.get("loops", ())):
            miss = [q for q in (right, left) if o.st.facts.get(("variant", q)) == 0]
            if miss:
                v = e.deref(o.st, o.val) if o.kind == "ret" else None
                if o.kind == "back" or isinstance(v, Adt) and v.path.endswith("Option") and v.v != 0:
                    ctx.violation(f"open|{key}", where, "visibility: a direction with an unblocked side does not make the result empty", {})
                continue
            if o.kind == "ret" and isinstance(e.deref(o.st, o.val), Adt) and e.deref(o.st, o.val).v == 0:
                ctx.violation(f"open|{key}|early", where, "visibility: the result is empty although both sides of the direction are blocked", {}) if not raw(o) else ctx.inconclusive("visibility", key, "early exit")
                continue
        if not any(o is b for b in oback):
            continue
        want = []
        und = False
        for q in (right, left):
            d = S.order_mask(o.st, "dist", ["o"], names[q], through)
            if not d & NEG:
                want.append(names[q])
            elif d & (ZER | POS):
                und = True
        if und:
            if raw(o):
                raise Inconclusive("comparison with the vertex not recognised")
            ctx.violation(f"points|{key}|unchecked", where, "visibility: a blocking point is added or dropped without comparing its distance with the vertex", {})
        elif pushed[id(o)] != want:
            side = lambda ps: [("right" if p == names[right] else "left") for p in ps]
            ctx.violation(f"points|{key}|{side(want)}|{side(pushed[id(o)])}", where,
                          f"visibility: a direction adds {side(pushed[id(o)]) or 'nothing'} where the rule adds {side(want) or 'nothing'} (right before left, only points not nearer than the vertex)", {})
    ctx.obligation("visibility: points added per direction", rows=len(oback), function=key)

    # ---- nothing is returned before the directions are looked at
    for o in outs:
        v = e.deref(o.st, o.val) if o.kind == "ret" else None
        if not isinstance(v, Adt) or v.v != 1 or any(i is oinfo for i in o.st.tags.get("loops", ())):
            continue
        if not unbound(o):
            raise Inconclusive("a polygon is returned before the directions are looked at")
        ctx.violation(f"shortcut|{key}", where, "visibility: a polygon is returned without looking in any direction (also when one side of a ray is not blocked)", {})

    for o in outs:
        v = e.deref(o.st, o.val) if o.kind == "ret" else None
        if isinstance(v, Adt) and v.path.endswith("Option") and v.v == 0 and not any(i is oinfo for i in o.st.tags.get("loops", ())) and unbound(o) \
                and all(large(k, m) for k, m in o.st.facts.items() if isinstance(k, Poly) and far(k, m) is None):
            ctx.violation(f"shortcut|{key}|none", where, "visibility: the result is empty without looking in any direction", {"path_facts": facts_str(o.st)})

    # ---- the result is what was added, up to neighbouring duplicates
    phis = set(oinfo.phis.values())
    nres = 0
    for o in oos:
        v = e.deref(o.st, o.val) if o.kind == "ret" else None
        if not (isinstance(v, Adt) and v.v == 1 and v.f):
            continue
        w = e.deref(o.st, v.f[0])
        if not (isinstance(w, Adt) and w.path == POLY):
            raise Inconclusive("result polygon not recognised")
        res = e.deref(o.st, w.f[0])
        nres += 1
        while isinstance(res, Opq) and res.t not in phis and res.t in e.seqinfo:
            op = res.t.split("(", 1)[0]
            if op == "sub":
                ctx.violation(f"result|{key}|{op}", where, "visibility: added points are cut off before the result polygon is made", {})
                break
            if e.seqinfo[res.t][0] not in ("subset", "perm") or op != "dedup":
                raise Inconclusive(f"step {op} between the added points and the result not recognised")
            res = e.seqinfo[res.t][1]
        else:
            if not (isinstance(res, Opq) and res.t in phis):
                raise Inconclusive("result points not recognised")
    ctx.obligation("visibility: the result holds every added point", rows=nres, function=key)

    # ---- the directions
    vname = S.full(through)
    seq = next((t for t in e.seqinfo if vname.startswith(t + "[") or vname.startswith("<" + t + ">[")), None)
    ups = [e.phi_updates(oinfo, o.st) for o in oback]
    if seq is None:
        cs = [t for t in list(e.seqinfo) if t in vname]
        raise Inconclusive("the sequence of directions was not recognised")
    seqv = Opq(max((t for t in e.seqinfo if t + "[" in vname), key=len), ("adt", VECP, (CUR_TY,)))
    ops, src = chain(e, seqv)
    oloop, ofirst = ring_scan(e, oinfo, oos, Poly.atom(f"len({seqv.t})"))
    if ofirst:
        ctx.violation(f"directions|{key}|skip", where, f"visibility: {ofirst} direction(s) are left out", {})
    evs = {}
    for o in oback:
        for ev in o.st.events():
            if ev[0] in ("perm", "subset"):
                evs[(ev[1], e.key(o.st, ev[2]))] = (ev, o.st)
    kinds = []
    for op, before in ops:
        hit = [(ev, s) for (nm, k), (ev, s) in evs.items() if nm == op and k == e.key(st, before)]
        if len(hit) != 1:
            raise Inconclusive(f"step {op} of the preparation of the directions not recognised")
        ev, s = hit[0]
        if ev[0] == "perm":
            if ev[3] is None:
                raise Inconclusive("directions sorted without a comparison")
            kinds.append("sort")
            bad = sort_rule(ctx, key, e, S, ev[3], s)
            if bad and not (bad.startswith("of the") and "dedup" not in kinds):
                ctx.violation(f"sort|{key}", where, f"visibility: {bad}", {})
            ctx.obligation("visibility: order of the directions", rows=9, function=key)
        elif op.startswith("dedup") and ev[4] is not None:
            kinds.append("dedup")
            bad = dedup_rule(ctx, key, e, S, ev[4], s)
            if bad:
                ctx.violation(f"dedup|{key}", where, f"visibility: {bad}", {})
            ctx.obligation("visibility: one direction per ray", rows=3, function=key)
        else:
            raise Inconclusive(f"step {op} of the preparation of the directions not recognised")
    if "sort" not in kinds:
        ctx.violation(f"sort|{key}|missing", where, "visibility: the directions are not sorted around the origin", {})
    elif "dedup" not in kinds:
        if any("angle[" in str(a) for o in oback for k in o.st.facts if isinstance(k, Poly) for a in k.atoms()):
            raise Inconclusive("directions on a common ray are handled inside the loop")
        ctx.violation(f"dedup|{key}|missing", where, "visibility: vertices on a common ray are handled more than once, so their blocking points can be added repeatedly", {})
    # the source holds every boundary vertex once
    c0 = [(i, q) for i, q in loops if isinstance(src, Opq) and src.t in i.phis.values()]
    if len(c0) != 1:
        raise Inconclusive("collection of the boundary vertices not recognised")
    cl, cf = ring_scan(e, c0[0][0], c0[0][1], n)
    if cf:
        ctx.violation(f"vertices|{key}", where, f"visibility: {cf} boundary vertices are not used as directions", {})
    for r in cl.rows:
        if r.kind != "back":
            continue
        ps = [ev for ev in r.o.st.events() if ev[0] == "push"]
        if len(ps) != 1 or cursor_of(e, r.o.st, ps[0][2])[0][2] != cl.k:
            raise Inconclusive("collection of the boundary vertices not recognised")
    ctx.obligation("visibility: every boundary vertex is a direction", rows=len(cl.rows), function=key)


def run(ctx):
    try:
        decide(ctx)
    except Inconclusive as x:
        ctx.inconclusive("visibility", VIS, str(x))
