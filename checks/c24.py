import re
from polyg import *
from spec import Table, Rows, Catalogue
from loops import loops_of, ring_loop, ring_scan, phi_atom
from engine import Inconclusive
from ctx import best_of, nogen

LEVEL = "other"
EXPLANATION = ("Each hull routine is analysed as an induction over its loops: one symbolic step of the start selection, of the candidate scan, of the stack scan and of the "
               "double-ended scan is compared, path by path, with the rule of the algorithm (turn and distance of the points involved); start, coverage of all "
               "points, termination test and the returned vertices are read off the loop summaries."
               " Every return before the scans has to be one that refuses or is forced by the facts decided on its path.")
ASSUMPTIONS = ["the textbook induction from these step rules to convexity and coverage of the hull", "orientation and distance comparisons are exact (C01-C03)",
               "sorting sorts by the comparator (C19)", "candidate mismatches are reported when inhabited by a catalogue of small integer configurations"]
HULL = R + "algorithms::convex_hull::"
BASE = re.compile(r"^(.*)\.(?:array|0)\[[01]\]$")


def pt_at(e, st, seq, i):
    return coords(e, st, e.seq_read(st, e.deref(st, seq), i))


def opaque_result(ctx, e):
    """polygons are returned unvalidated: their construction is C10's subject"""
    P = ctx.P
    for k, f in P.fns.items():
        if nogen(f["path"]) == POLY + "::new_unchecked" and f["kind"] != "Closure":
            e.fn_overrides[k] = lambda eng, st, args, c, dty, fr, sp: [(Adt(POLY, 0, [args[0], Tup([]), Tup([]), Tup([])], dty), st)]


def polygon_points(e, st, v):
    """the sequence of points inside a (convex) polygon (possibly in a Result); None when there is none"""
    v = e.deref(st, v)
    while isinstance(v, Adt) and v.path != POLY:
        if not v.f or v.path.endswith("Error"):
            return None
        v = e.deref(st, v.f[0])
    return e.deref(st, v.f[0]) if isinstance(v, Adt) else None


def ok_points(e, st, v):
    v = e.deref(st, v)
    if isinstance(v, Adt) and v.path.endswith("Result"):
        if v.v != 0:
            return None
        v = v.f[0]
    return polygon_points(e, st, v)


def bases(o):
    """points whose coordinates a path's facts mention"""
    out = set()
    for k in o.st.facts:
        if isinstance(k, Poly):
            for a in k.atoms():
                m = BASE.match(str(a))
                if m:
                    out.add(m.group(1))
    return out


def base_of(e, st, seq, i):
    m = BASE.match(repr(pt_at(e, st.copy(), seq, i)[0]))
    return m.group(1) if m else None


def lexs(o, a, b, order):
    for i in order:
        s = o.sign(a[i] - b[i])
        if s:
            return s
    return 0


def dist2(a, b):
    return dot(sub(a, b), sub(a, b))


def short_scan(e, info, outs, n):
    """the scan starts at a constant and always ends before the last element: number left out at the end, or 0"""
    backs = [o for o in outs if o.kind == "back" and o.info is info]
    exits = [o for o in outs if not (o.kind == "back" and o.info is info) and o.kind != "panic"]
    if not backs or not exits:
        return 0
    ups = [e.phi_updates(info, o.st) for o in backs]
    for a in ups[0]:
        i0 = ups[0][a][0]
        if not isinstance(i0, Num) or not i0.p.is_const():
            continue
        ka = phi_atom(info, a)
        if not all(a in u and isinstance(u[a][1], Num) and u[a][1].p - ka == ONE for u in ups):
            continue
        for c in (1, 2, 3):
            if all(e.possible(o.st, n - Poly.const(c) - ka) == ZER for o in exits):
                return c
    return 0


def capped_scan(e, info, outs, n):
    """a selection over positions 0, 1, .. that can end at a position before n without having looked at a point"""
    backs = [o for o in outs if o.kind == "back" and o.info is info]
    exits = [o for o in outs if o not in backs and o.kind != "panic"]
    ups = [e.phi_updates(info, o.st) for o in backs]
    if not ups or not any(bases(o) for o in backs):
        return False
    before = {k for k in info.start.facts}
    for a, (i0, _) in ups[0].items():
        if not isinstance(i0, Num) or not i0.p.is_const():
            continue
        ka = phi_atom(info, a)
        if not all(a in u and isinstance(u[a][1], Num) and u[a][1].p - ka == ONE for u in ups):
            continue
        picks = [b for b in ups[0] if b != a and all(b in u and isinstance(u[b][1], Num) for u in ups)
                 and any(u[b][1].p == ka for u in ups) and any(u[b][1].p == phi_atom(info, b) for u in ups)]
        if not picks:
            continue
        for o in exits:
            if e.possible(o.st, n - ka) == POS and not any(f"[{a}]" in str(x) for k in o.st.facts if isinstance(k, Poly) and k not in before for x in k.atoms()):
                return True
    return False


def shortcut(ctx, name, key, e, outs, seq, n, least):
    """returns of the input sequence itself, decided by nothing but the number of points (at least `least` of them)"""
    loops = {id(info): any(bases(x) for x in os if x.kind == "back" and x.info is info) for info, os in loops_of(outs)}
    for o in outs:
        if o.kind != "ret":
            continue
        rp = ok_points(e, o.st, o.val)
        if rp is None or e.key(o.st, rp) != e.key(o.st, e.deref(o.st, seq)):
            continue
        if bases(o) or any(loops.get(id(i), True) for i in o.st.tags.get("loops", ())):
            tri = [pt_at(e, o.st.copy(), seq, Poly.const(i)) for i in range(3)]
            mine = {m.group(1) for c in tri for m in [BASE.match(repr(c[0]))] if m}
            if e.possible(o.st, n - Poly.const(3)) != ZER or not bases(o) <= mine or o.st.tags.get("loops"):
                ctx.inconclusive(name, key, "the points may be returned as they are")
                continue

            def spec(q, x):
                return None if q.sign(det(*tri)) > 0 else "three points that are not in counter-clockwise order not to be returned as they are"
            names = list(dict.fromkeys(repr(z) for c in tri for z in c))
            Rows(ctx, f"{name} of three points", key, [o], o.st, spec, Catalogue(names, 0, 3, rnd=20000, span=9).ignore("."), names, eng=e).run()
        elif e.possible(o.st, n - Poly.const(least)) & (POS | ZER):
            ctx.violation(f"{name}|{key}|shortcut", where_of(ctx, key),
                          f"{name}: {least} or more points can be returned as they are whatever their position (clockwise, in line or inside the hull)", {"function": key})
            return True
    return False


def where_of(ctx, key):
    return ctx.where(ctx.P.fns[key])


def scan_loops(ctx, name, key, e, outs, pts, n):
    """loops walking over all positions of pts: [(info, outcomes, loop, first, carried positions {phi: entry value})]"""
    res = []
    for info, os in loops_of(outs):
        try:
            loop, first = ring_scan(e, info, os, n, caps=False)
        except Inconclusive:
            c = short_scan(e, info, os, n)
            if c:
                ctx.violation(f"{name}|{key}|short scan", where_of(ctx, key),
                              f"{name}: a scan of the points in {ctx.P.fns[key]['path']} always ends {c} point(s) before the last one", {"function": key})
            elif capped_scan(e, info, os, n):
                ctx.violation(f"{name}|{key}|capped scan", where_of(ctx, key),
                              f"{name}: a scan of the points in {ctx.P.fns[key]['path']} can end before the last point whatever the points are", {"function": key})
            continue
        acc = {}
        # counters in lock step with the position stand for it
        ks = [loop.k]
        for a, i in loop.accumulators().items():
            rs = [r for r in loop.rows if r.kind == "back" and a in r.upd]
            ka = phi_atom(info, a)
            if isinstance(i, Num) and i.p == Poly.const(first) and rs and all(isinstance(r.upd[a][1], Num) and r.upd[a][1].p - ka == ONE for r in rs):
                ks.append(ka)
        loop.n, loop.ks = n, ks
        for a, i in loop.accumulators().items():
            if not isinstance(i, Num):
                continue
            vals = [r.upd[a][1] for r in loop.rows if r.kind == "back" and a in r.upd]
            ka = phi_atom(info, a)
            sts = [r.o.st for r in loop.rows if r.kind == "back" and a in r.upd]
            if all(isinstance(v, Num) for v in vals) and all(e.possible(s, v.p - ka) == ZER or any(e.possible(s, v.p - k) == ZER for k in ks) for v, s in zip(vals, sts)):
                # a lock-step counter of the position is not a candidate
                if any(v.p == ka for v in vals):
                    acc[a] = i.p
        res.append((info, os, loop, first, acc))
    return res


def alias(e, st, pts, a, b, env):
    if a != b:
        for x, y in zip(pt_at(e, st.copy(), pts, a), pt_at(e, st.copy(), pts, b)):
            env[repr(x)] = y


def renamed(e, st, env):
    q = st.copy()
    for k in [k for k in q.facts if isinstance(k, Poly) and any(str(a) in env for a in k.atoms())]:
        m = q.facts.pop(k)
        e.add_sign(q, k.subst(env), m)
    return q


def select(ctx, name, key, e, st, pts, info, loop, first, acc, rule, third=None, prem=()):
    """each iteration keeps the better of candidate and scanned point: rule(o, cand, item, third) -> 'take', 'keep' or None (either)"""
    rows = [r for r in loop.rows if r.kind == "back"]
    early = [r for r in loop.rows if r.kind == "early" and r.o.kind != "panic"]
    if early:
        item = f"[{loop.k}]"
        if any(e.possible(r.o.st, loop.n - loop.k) == POS and not any(item in str(x) for f in r.o.st.facts if isinstance(f, Poly) for x in f.atoms()) for r in early):
            ctx.violation(f"{name}|{key}|capped scan", where_of(ctx, key), f"{name}: the scan of the points can end before the last point whatever the points are", {"function": key})
        else:
            ctx.inconclusive(name, key, "the scan is left early")
        return False
    s0 = rows[0].o.st
    main = sorted(acc)[0]
    # positions that move together name the same point
    env = {}
    for k in loop.ks:
        alias(e, s0, pts, k, loop.k, env)
    for a in acc:
        if acc[a] == acc[main]:
            alias(e, s0, pts, phi_atom(info, a), phi_atom(info, main), env)
    if env:
        for r in rows:
            r.o.st = renamed(e, r.o.st, env)
    cand, item = pt_at(e, s0.copy(), pts, phi_atom(info, main)), pt_at(e, s0.copy(), pts, loop.k)
    upd = {id(r.o): r.upd for r in rows}

    def spec(o, x):
        moves = set()
        for a in acc:
            v, ka = upd[id(x)][a][1].p, phi_atom(info, a)
            moves.add("keep" if e.possible(x.st, v - ka) == ZER else "take")
        if len(moves) != 1:
            raise Inconclusive("candidates move separately")
        got = moves.pop()
        for q in ([third] if third is not None else []) + [phi_atom(info, a) for a in acc]:
            if any(e.possible(x.st, k - q) == ZER for k in loop.ks):
                return None         # compared with itself
        want = rule(o, cand, item)
        if want is None or want == got:
            return None
        return "the scanned point to replace the candidate" if want == "take" else "the candidate to be kept"
    extra = pt_at(e, s0.copy(), pts, third) if third is not None else ()
    names = list(dict.fromkeys(repr(z) for z in (*cand, *item, *extra)))
    cat = Catalogue(names, 0, 3, rnd=20000, span=9).ignore(".")
    Rows(ctx, name, key, [r.o for r in rows], st, spec, cat, names, eng=e).run()
    # the candidate the scan starts with is one of the points and every other point is looked at
    for a, i in acc.items():
        if first >= 1 and not (first == 1 and i == ZERO):
            ctx.violation(f"{name}|{key}|coverage", where_of(ctx, key), f"{name}: the scan skips the first {first} point(s) although they are not the initial candidate", {"initial": repr(i)})
    return main


# ------------------------------------------------------------------------------------ gift wrapping
def gift(ctx):
    P = ctx.P
    key = ctx.one(HULL + "gift_wrapping::convex_hull")
    if not key:
        return
    name = "gift wrapping"
    e, st = ctx.engine(), State()
    opaque_result(ctx, e)
    b = P.body(key)
    pts = e.mkdeep(st, "pts", b["locals"][1])
    n, seq0 = e.seq_len(st, e.deref(st, pts)), e.deref(st, pts)
    try:
        outs = e.run(key, [pts], st)
        if shortcut(ctx, name, key, e, outs, seq0, n, 3):
            return
        scans = scan_loops(ctx, name, key, e, outs, pts, n)
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))
        return
    if e.unknown:
        ctx.inconclusive(name, key, f"calls without a model: {sorted(map(str, e.unknown))[:3]}")
        return
    start = walk = None
    wraps = []
    for info, os, loop, first, acc in scans:
        if not acc:
            continue
        rows = [r for r in loop.rows if r.kind == "back"]
        s0 = rows[0].o.st
        used = set().union(*(bases(r.o) for r in rows))
        own = {base_of(e, s0, pts, phi_atom(info, a)) for a in acc} | {base_of(e, s0, pts, k) for k in loop.ks}
        third = used - own
        if not third:
            start = (info, loop, first, acc)
        elif len(third) == 1:
            wraps.append((info, loop, first, acc, third.pop()))
        else:
            ctx.inconclusive(name, key, "a scan compares more than three points")
            return
    if start is None or not wraps:
        ctx.inconclusive(name, key, "start selection or candidate scan not recognised")
        return
    info, loop, first, acc = start

    def start_rule(order):
        def f(o, cand, item):
            s = lexs(o, item, cand, order)
            return "take" if s < 0 else "keep" if s > 0 else None
        return f
    # lowest, then leftmost; the mirrored choices are extreme points as well
    best_of(ctx, [lambda c, r=r: select(c, "gift wrapping start", key, e, st, pts, info, loop, first, acc, r) for r in (start_rule((1, 0)), start_rule((0, 1)))])
    start_phis = {phi_atom(info, a) for a in acc}
    s0 = [r.o for r in loop.rows if r.kind == "back"][0].st

    # ---- candidate scans
    pnames = set()
    for winfo, wloop, wfirst, wacc, third in wraps:
        m = re.match(r"^pts\[(.*)\]$", third)
        if not m:
            ctx.inconclusive(name, key, "current point not recognised")
            return
        pa = phi_atom(winfo, m.group(1))
        pnames.add(m.group(1))

        def rule(o, cand, item, pa=pa):
            cur = pt_at(e, o.st.copy(), pts, pa)
            s = o.sign(det(cur, cand, item))
            if s:
                return "take" if s < 0 else "keep"
            d = o.sign(dist2(cur, item) - dist2(cur, cand))
            return "take" if d > 0 else "keep" if d < 0 else None
        select(ctx, "gift wrapping scan", key, e, st, pts, winfo, wloop, wfirst, wacc, rule, third=pa)
    if len(pnames) != 1:
        ctx.inconclusive(name, key, "several current points")
        return
    pname = pnames.pop()
    cands = {a: phi_atom(w[0], a) for w in wraps for a in w[3]}

    # ---- the walk around the hull
    outer = [(i, os) for i, os in loops_of(outs) if pname in i.phis.values()]
    if len(outer) != 1:
        ctx.inconclusive(name, key, "the walk was not recognised")
        return
    oinfo, oouts = outer[0]
    pa = phi_atom(oinfo, pname)
    backs = [o for o in oouts if o.kind == "back" and o.info is oinfo]
    exits = [o for o in oouts if o.kind == "ret"]

    def next_of(o):
        """the candidate chosen on a path: the carried position of the candidate scan it went through"""
        used = bases(o)
        for info_, _, _, acc_, _ in wraps:
            if any(i is info_ for i in o.st.tags.get("loops", ())):
                return phi_atom(info_, sorted(acc_)[0])
        raise Inconclusive("path without a candidate scan")
    sa = sorted(start_phis, key=repr)

    def start_of(o):
        used = bases(o)
        for a in sa:
            if base_of(e, o.st, pts, a) in used:
                return a
        return sa[0]
    ups = {id(o): e.phi_updates(oinfo, o.st) for o in backs}
    i0 = ups[id(backs[0])][pname][0] if backs else None
    if not isinstance(i0, Num) or i0.p not in start_phis:
        if isinstance(i0, Num) and i0.p.is_const():
            ctx.violation(f"{name}|{key}|start", where_of(ctx, key), f"{name}: the walk starts at position {i0.p}, not at the selected start point", {})
        else:
            ctx.inconclusive(name, key, "entry of the walk not recognised")
        return

    def walk_spec(o, x):
        nx = next_of(x)
        if x.kind == "back":
            v = ups[id(x)][pname][1]
            if not isinstance(v, Num) or e.possible(x.st, v.p - nx) & ZER == 0 or not ({*map(str, v.p.atoms())} <= {*map(str, nx.atoms())}):
                return "the walk to go on at the selected candidate"
        s = start_of(x)
        if e.possible(x.st, nx - s) == ZER:
            same = True
        else:
            a, c = pt_at(e, o.st.copy(), pts, nx), pt_at(e, o.st.copy(), pts, s)
            same = o.sign(a[0] - c[0]) == 0 and o.sign(a[1] - c[1]) == 0
        if same == (x.kind != "back"):
            return None
        return "the walk to stop at the start point" if same else "the walk to go on"
    names = []
    for o in backs + exits:
        for q in (next_of(o), start_of(o)):
            names += [repr(z) for z in pt_at(e, o.st.copy(), pts, q)]
    names = list(dict.fromkeys(names))
    Rows(ctx, "gift wrapping walk", key, backs + exits, st, walk_spec, Catalogue(names, 0, 3, rnd=20000, span=9).ignore("."), names, eng=e).run()

    # ---- what is returned: the points walked over, one per step
    for o in backs + exits:
        pushes = [ev for ev in o.st.events() if ev[0] == "push"]
        if len(pushes) != 1:
            ctx.inconclusive(name, key, "more than one vertex per step")
            return
        got = coords(e, o.st, e.deref(o.st, pushes[0][2]))
        if got != pt_at(e, o.st.copy(), pts, pa) and got != pt_at(e, o.st.copy(), pts, next_of(o)):
            ctx.violation(f"{name}|{key}|vertex", where_of(ctx, key), f"{name}: the vertex recorded in a step is neither the point walked from nor the point walked to", {"vertex": [repr(z) for z in got]})
            return
        if o.kind == "ret":
            rp = ok_points(e, o.st, o.val)
            ln = None
            if rp is not None:
                if e.key(o.st, rp).count("push(") != 1:
                    ctx.inconclusive(name, key, "returned vertices not recognised")
                    return
                ln = e.seq_len(o.st, rp)
                if e.possible(o.st, ln - Poly.const(3)) & NEG:
                    ctx.violation(f"{name}|{key}|short hull", where_of(ctx, key), f"{name}: a hull of fewer than three vertices can be returned as Ok", {})
            else:
                hulls = [e.deref(o.st, ev[1]) for ev in pushes]
                ln = e.seq_len(o.st, hulls[0]) + ONE
                if e.possible(o.st, ln - Poly.const(3)) & (ZER | POS):
                    ctx.violation(f"{name}|{key}|long hull", where_of(ctx, key), f"{name}: a walk over three or more vertices can be rejected", {})
    ctx.obligation("gift wrapping result", outcomes=len(backs) + len(exits), function=key)


# ------------------------------------------------------------------------------------ Graham scan
def point_seqs(e, info, os):
    """loop variables holding a sequence of points: {phi: (entry value, value after one iteration of the first path)}"""
    back = [o for o in os if o.kind == "back" and o.info is info]
    out = {}
    for a, (i, b) in e.phi_updates(info, back[0].st).items():
        if isinstance(b, Opq) and not is_bool_ty(b) or isinstance(i, (Opq, Arr)) and not isinstance(b, Num):
            out[a] = (i, b)
    return out


def is_bool_ty(v):
    return isinstance(v, Opq) and v.ty is not None and v.ty[0] == "bool"


def start_value(e, info, a):
    """the loop variable itself, as a value"""
    def walk(v):
        if isinstance(v, Opq) and v.t == a:
            return v
        for x in getattr(v, "f", ()):
            r = walk(x)
            if r is not None:
                return r
        return None
    for c, v in info.start.mem.items():
        r = walk(v)
        if r is not None:
            return r
    return None


def num_phis(e, info, os):
    back = [o for o in os if o.kind == "back" and o.info is info]
    res = {}
    for a, (i, b) in e.phi_updates(info, back[0].st).items():
        if isinstance(i, Num) and isinstance(b, Num):
            steps = []
            for o in back:
                u = e.phi_updates(info, o.st).get(a)
                if u is None or not isinstance(u[1], Num):
                    steps = None
                    break
                d = u[1].p - phi_atom(info, a)
                steps.append(d.const_val() if d.is_const() else None)
            if steps is not None:
                res[a] = (i.p, steps)
    return res


def graham(ctx):
    P = ctx.P
    key = ctx.one(HULL + "graham_scan::convex_hull")
    if not key:
        return
    name = "Graham scan"
    e, st = ctx.engine(), State()
    opaque_result(ctx, e)
    b = P.body(key)
    pts = e.mkdeep(st, "pts", b["locals"][1])
    n, seq0 = e.seq_len(st, e.deref(st, pts)), e.deref(st, pts)
    try:
        outs = e.run(key, [pts], st)
        if shortcut(ctx, name, key, e, outs, seq0, n, 3):
            return
        scans = scan_loops(ctx, name, key, e, outs, pts, n)
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))
        return
    if e.unknown:
        ctx.inconclusive(name, key, f"calls without a model: {sorted(map(str, e.unknown))[:3]}")
        return
    groups = loops_of(outs)
    # ---- start point
    starts = [s for s in scans if s[4] and s[0] is groups[0][0]]
    if not starts:
        ctx.inconclusive(name, key, "start selection not recognised")
        return
    info, os, loop, first, acc = starts[0]

    def start_rule(o, cand, item):
        s = lexs(o, item, cand, (1, 0))
        return "take" if s < 0 else "keep" if s > 0 else None
    select(ctx, "Graham scan start", key, e, st, pts, info, loop, first, acc, start_rule)
    start_phis = [phi_atom(info, a) for a in acc]

    # ---- order around the start point
    perms = {}
    for o in outs:
        for ev in o.st.events():
            if ev[0] == "perm":
                perms.setdefault((ev[1], str(ev[4]) if len(ev) > 4 else ""), (ev, o))
    if len(perms) != 1:
        ctx.inconclusive(name, key, f"expected one sorting step, found {len(perms)}")
        return
    ev, o = next(iter(perms.values()))
    clo = e.deref(o.st, ev[3]) if isinstance(ev[3], Ref) else ev[3]
    if not isinstance(clo, Clo) or len(clo.f) != 1:
        ctx.inconclusive(name, key, "sorting comparator not recognised")
        return
    cap = coords(e, o.st, e.deref(o.st, clo.f[0]))
    if cap not in [pt_at(e, o.st.copy(), pts, a) for a in start_phis]:
        ctx.violation(f"{name}|{key}|pivot", where_of(ctx, key), f"{name}: the points are sorted around a point that is not the selected start point", {"pivot": [repr(z) for z in cap]})
    comparator(ctx, "Graham scan order", clo, key)

    # ---- the two scans over the sorted points
    stack = ray = None
    for info, os in groups:
        seqs = {a: v for a, v in point_seqs(e, info, os).items()}
        nums = num_phis(e, info, os)
        if len(seqs) != 1 or not any(ev[0] == "perm" for o in os for ev in o.st.events()):
            continue
        sq = next(iter(seqs))
        back = [o for o in os if o.kind == "back" and o.info is info]
        if not any(b.startswith(sq + "[") for o in back for b in bases(o)):
            continue
        downs = [a for a, (i, s) in nums.items() if -1 in s]
        ups = [a for a, (i, s) in nums.items() if -1 not in s and 1 in s]
        if downs and len(downs) == 1 and len(ups) == 1:
            stack = stack or []
            stack.append((info, os, sq, seqs[sq], downs[0], ups[0], nums))
        elif not downs and len(ups) == 1:
            ray = ray or []
            ray.append((info, os, sq, seqs[sq], ups[0], nums))
    if not stack:
        ctx.inconclusive(name, key, "stack scan not recognised")
        return
    for info, os, sq, (iv, _), w, r, nums in stack:
        stack_scan(ctx, key, e, st, info, os, sq, iv, w, r, nums)
    for info, os, sq, (iv, _), r, nums in ray or []:
        ray_scan(ctx, key, e, st, info, os, sq, r, nums)


def comparator(ctx, name, clo, key):
    """a closure ordering points around a lowest point s: by turn, nearer first on a common ray"""
    P = ctx.P
    e, st = ctx.engine(), State()
    s_, a, b = xy("s"), xy("a"), xy("b")
    # the captured start point may sit behind several references
    env = ref(e, st, point("s"))
    caps = P.fns[clo.key].get("upvars") or []
    t = caps[0] if caps else None
    while t is not None and t[0] == "ref" and t[1][0] == "ref":
        env = Ref(e.new_cell(st, env), (), False)
        t = t[1]
    args = [ref(e, st, Clo(clo.key, [env]), True), ref(e, st, point("a")), ref(e, st, point("b"))]

    def spec(o, x):
        # the start point is lowest, then leftmost
        for p in (a, b):
            if lexs(o, p, s_, (1, 0)) < 0:
                return None
        za, zb = lexs(o, a, s_, (1, 0)) == 0, lexs(o, b, s_, (1, 0)) == 0
        if za and zb:
            return None
        if za:
            return expect_enum(o, x, "Less")
        if zb:
            return expect_enum(o, x, "Greater")
        d = o.sign(det(s_, a, b))
        if d == 0:
            d = -lexs(o, a, b, (1, 0))
            if d == 0:
                return None
        return expect_enum(o, x, cmp_name(-d))
    names = [p + c for p in "sab" for c in "xy"]
    Table(ctx, name, clo.key, args, st, spec, Catalogue(names, 0, 3, rnd=30000, span=9), names, eng=e).run()


def elem(e, st, seq, i):
    return coords(e, st, e.seq_read(st, e.deref(st, seq), i))


def stack_scan(ctx, key, e, st, info, os, sq, iv, w, r, nums):
    """prefix [0..w] is the stack, r the next point: strictly left turn -> push, otherwise pop"""
    name = "Graham scan stack"
    S = start_value(e, info, sq)
    W, Rr = phi_atom(info, w), phi_atom(info, r)
    back = [o for o in os if o.kind == "back" and o.info is info]
    ups = {id(o): e.phi_updates(info, o.st) for o in back}
    if S is None:
        ctx.inconclusive(name, key, "sequence not recognised")
        return
    s0 = back[0].st
    A, B, C = (elem(e, s0.copy(), S, i) for i in (W - ONE, W, Rr))
    names = [repr(z) for p in (A, B, C) for z in p]
    j = Poly.atom("j", USZ)

    def spec(o, x):
        u = ups[id(x)]
        dw, dr = u[w][1].p - W, u[r][1].p - Rr
        s = o.sign(det(A, B, C))
        if s <= 0 and e.possible(x.st, W - ONE) == ZER:
            return None         # no sorted point is right of the first edge
        if s == 0 and dw == ZERO and dr == ONE and all(o.sign(b_ - c_) == 0 for b_, c_ in zip(B, C)):
            return None         # a copy of the top may be skipped
        if s > 0:
            if dw != ONE or dr != ONE:
                return "the point to be pushed (strictly left turn)"
            q = x.st.copy()
            e.add_sign(q, Rr - W, POS)
            nv = u[sq][1]
            if elem(e, q, nv, W + ONE) != C:
                return "the new top of the stack to be the scanned point"
            # the stack below and the points still to be read stay in place
            q1 = q.copy()
            e.add_sign(q1, W - j, POS | ZER)
            e.add_sign(q1, j, POS | ZER)
            e.add_sign(q1, Rr - j, POS)
            e.add_sign(q1, W + ONE - j, POS)
            q2 = q.copy()
            e.add_sign(q2, j - Rr, POS)
            e.add_sign(q2, j - W - ONE, POS)
            for q_ in (q1, q2):
                if elem(e, q_, nv, j) != elem(e, q_, S, j):
                    return "the rest of the sequence to stay in place"
        else:
            if dw != -ONE or dr != ZERO:
                return "the top of the stack to be dropped (no strictly left turn)"
            if u[sq][1] is not S and e.key(x.st, u[sq][1]) != e.key(x.st, S):
                return "the points to stay in place"
        return None
    Rows(ctx, name, key, back, st, spec, Catalogue(names, 0, 3, rnd=30000, span=9).ignore("."), names, eng=e).run()
    if nums[w][0] != ONE:
        ctx.violation(f"{name}|{key}|base", where_of(ctx, key), f"{name}: the stack does not start with two points", {"top": repr(nums[w][0])})
    exits = [o for o in os if o.kind == "ret" and any(i is info for i in o.st.tags.get("loops", ()))]
    for o in exits:
        m = e.possible(o.st, e.seq_len(o.st, S) - Rr)
        if m == POS:
            ctx.violation(f"{name}|{key}|unread", where_of(ctx, key), f"{name}: the scan can end while points are left", {"path_facts": facts(o)})
            return
        rp = ok_points(e, o.st, o.val)
        if rp is None:
            if e.possible(o.st, W + ONE - Poly.const(3)) & (ZER | POS) and e.possible(o.st, e.seq_len(o.st, S) - Poly.const(3)) & (ZER | POS):
                ctx.violation(f"{name}|{key}|rejected", where_of(ctx, key), f"{name}: a stack of three or more points can be rejected", {"path_facts": facts(o)})
                return
            continue
        ln = e.seq_len(o.st, rp)
        if e.possible(o.st, ln - Poly.const(3)) & NEG:
            ctx.violation(f"{name}|{key}|short hull", where_of(ctx, key), f"{name}: a hull of fewer than three vertices can be returned as Ok", {"path_facts": facts(o)})
            return
        q = o.st.copy()
        e.add_sign(q, e.seq_len(q, S) - ONE - W, POS | ZER)
        d = e.possible(q, ln - W - ONE)
        if d & ZER == 0:
            ctx.violation(f"{name}|{key}|result", where_of(ctx, key), f"{name}: the result does not hold exactly the points of the stack", {"length": repr(ln), "top": repr(W)})
            return
        if d != ZER:
            ctx.inconclusive(name, key, "length of the result not decided")
            return
        e.add_sign(q, j, POS | ZER)
        e.add_sign(q, W - j, POS | ZER)
        e.add_sign(q, ln - j, POS)
        try:
            if elem(e, q, rp, j) != elem(e, q, S, j):
                ctx.violation(f"{name}|{key}|result points", where_of(ctx, key), f"{name}: a point of the result is not the point of the stack at its place", {})
                return
        except Inconclusive as x:
            ctx.inconclusive(name, key, str(x))
            return
    ctx.obligation("Graham scan result", outcomes=len(exits), function=key)


def facts(o):
    from spec import facts_str
    return [s[:200] for s in facts_str(o.st)]


def ray_scan(ctx, key, e, st, info, os, sq, r, nums):
    """points on the first ray: only the farthest is kept next to the start point"""
    name = "Graham scan first ray"
    S = start_value(e, info, sq)
    Rr = phi_atom(info, r)
    back = [o for o in os if o.kind == "back" and o.info is info]
    ups = {id(o): e.phi_updates(info, o.st) for o in back}
    s0 = back[0].st
    used = set().union(*(bases(o) for o in back))
    B, C = elem(e, s0.copy(), S, ONE), elem(e, s0.copy(), S, Rr)
    A = elem(e, s0.copy(), S, ZERO)
    if base(A) not in used:
        i = e.phi_updates(info, s0)[sq][0]
        A = elem(e, s0.copy(), i, ZERO)
        if base(A) not in used:
            ctx.inconclusive(name, key, "start point not recognised")
            return
    names = [repr(z) for p in (A, B, C) for z in p]
    others = [o for o in os if o.kind != "panic" and not (o.kind == "back" and o.info is info)]

    def spec(o, x):
        if x not in back:
            if e.possible(x.st, e.seq_len(x.st, S) - Rr) & POS == 0:
                return None
            return None if o.sign(det(A, B, C)) else "the points on the first ray to be skipped"
        if o.sign(det(A, B, C)):
            return "the first point off the ray to end the skipping"
        u = ups[id(x)]
        if u[r][1].p - Rr != ONE:
            return "one point to be skipped"
        if elem(e, x.st.copy(), u[sq][1], ONE) != C:
            return "the farther point to take its place"
        return None
    Rows(ctx, name, key, back + others, st, spec, Catalogue(names, 0, 3, rnd=30000, span=9).ignore("."), names, eng=e).run()
    if nums[r][0] != Poly.const(2):
        ctx.violation(f"{name}|{key}|base", where_of(ctx, key), f"{name}: the scan does not start with the third point", {"start": repr(nums[r][0])})


def base(c):
    m = BASE.match(repr(c[0]))
    return m.group(1) if m else None


# ------------------------------------------------------------------------------------ Melkman
class Deque:
    """a double-ended queue of points: elements addressed from either end, in the terms the code uses"""

    def __init__(self, e, info, sq, last=None):
        self.e, self.info, self.sq, self.last = e, info, sq, last
        self.S = start_value(e, info, sq)

    def len(self, st):
        return self.e.seq_len(st, self.S)

    def at(self, st, i):
        """i >= 0 from the front, i < 0 from the back"""
        if i >= 0:
            return elem(self.e, st.copy(), self.S, Poly.const(i))
        tops = ([phi_atom(self.info, self.last)] if self.last else []) + [self.len(st) - ONE]
        alts = [elem(self.e, st.copy(), self.S, top + Poly.const(i + 1)) for top in tops]
        # the same entry may be addressed by a counter or by the length: follow the code
        seen = {a for k in st.facts if isinstance(k, Poly) for a in map(str, k.atoms())}
        return next((c for c in alts if repr(c[0]) in seen or repr(c[1]) in seen), alts[0])


def last_index(e, info, os, sq, start, known=()):
    """a counter that is the index of the last element whenever at least `start` elements are held (known: what holds inside)"""
    back = [o for o in os if o.kind == "back" and o.info is info]
    S = start_value(e, info, sq)
    allups = [e.phi_updates(info, o.st) for o in back]
    for a, (i0, _) in sorted(allups[0].items()):
        if not isinstance(i0, Num) or not all(a in u and isinstance(u[a][1], Num) for u in allups):
            continue
        q = phi_atom(info, a)
        ok = True
        n0 = e.seq_len(info.init, allups[0][sq][0])
        s0 = info.init.copy()
        for z in known:
            e.add_sign(s0, z, ZER)
        if e.possible(s0, n0 - Poly.const(start)) != NEG and e.possible(s0, i0.p - n0 + ONE) != ZER:
            continue
        for o in back:
            u = e.phi_updates(info, o.st)
            st = o.st.copy()
            for z in known:
                e.add_sign(st, z, ZER)
            L = e.seq_len(st, S)
            if e.possible(st, L - Poly.const(start)) & NEG == 0:
                e.add_sign(st, q - L + ONE, ZER)
            nl = e.seq_len(st, u[sq][1])
            if e.possible(st, nl - Poly.const(start)) == NEG:
                continue
            if e.possible(st, u[a][1].p - nl + ONE) != ZER:
                ok = False
                break
        if ok:
            return a
    return None


def melkman(ctx):
    P = ctx.P
    key = ctx.one(HULL + "melkman::convex_hull")
    if not key:
        return
    name = "Melkman"
    e, st = ctx.engine(), State()
    opaque_result(ctx, e)
    pg = Poly_(e, st, "polygon")
    n = pg.size(st)
    e.add_sign(st, n, POS)
    try:
        outs = e.run(key, [pg.ref], st)
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))
        return
    if shortcut(ctx, name, key, e, outs, pg.points(st), n, 4):
        return
    if e.unknown:
        ctx.inconclusive(name, key, f"calls without a model: {sorted(map(str, e.unknown))[:3]}")
        return
    groups = loops_of(outs)
    # ---- loops that drop neighbours, and the walk over the boundary
    drops, walk = [], None
    for info, os in groups:
        back = [o for o in os if o.kind == "back" and o.info is info]
        seqs = point_seqs(e, info, os)
        for o in back:
            for a, (i, b) in e.phi_updates(info, o.st).items():
                k = e.key(o.st, b) if b is not None else ""
                if a in seqs and k.startswith("<del(<" + a + ">"):
                    drops.append((info, os, a))
                    break
        try:
            lp = ring_loop(e, info, os, n)
        except Inconclusive:
            continue
        if walk is None and any(ev[0] == "push" for o in back for ev in o.st.events()) and len(seqs) >= 1:
            walk = (info, os, lp)
    if walk is None:
        ctx.inconclusive(name, key, "the walk over the boundary was not recognised")
        return
    info, os, lp = walk
    drops = list({id(d[0]): d for d in drops}.values())
    seqs = [a for a in point_seqs(e, info, os) if e.key(info.init, point_seqs(e, info, os)[a][0]) == "[]"]
    if len(seqs) != 1:
        ctx.inconclusive(name, key, "the queue of hull vertices was not recognised")
        return
    sq = seqs[0]
    # counters that always point at the last entry
    known, lasts = [], {}
    for _ in range(3):
        for dinfo, dos, dsq in drops:
            if lasts.get(id(dinfo)) is None:
                a = lasts[id(dinfo)] = last_index(e, dinfo, dos, dsq, 0, known)
                if a is not None:
                    known.append(phi_atom(dinfo, a) - e.seq_len(dinfo.start, start_value(e, dinfo, dsq)) + ONE)
    D = Deque(e, info, sq, last_index(e, info, os, sq, 3, known))
    kinds = {}
    for dinfo, dos, dsq in drops:
        kinds[id(dinfo)] = drop_loop(ctx, key, e, st, dinfo, dos, dsq, lasts[id(dinfo)])
    back = [r.o for r in lp.rows if r.kind == "back"]
    if any(r.kind == "early" and r.o.kind != "panic" for r in lp.rows):
        ctx.violation(f"{name}|{key}|early", where_of(ctx, key), f"{name}: the walk over the boundary can end before all vertices are seen", {})
        return
    upd = {id(r.o): r.upd for r in lp.rows}
    p_of = lambda q: coords(e, q, pg.vertex(q, lp.k))
    dinfos = {id(d[0]): d for d in drops}
    used = set().union(*(bases(o) for o in back))

    def pt(o_, i):
        c = D.at(o_.st, i)
        return c

    def spec(o, x):
        q = x.st
        L = D.len(q)
        p = p_of(q.copy())
        new = upd[id(x)][sq][1]
        m = e.possible(q, L - Poly.const(2))
        inner = [i for i in q.tags.get("loops", ()) if id(i) in dinfos]
        if m == NEG:
            if inner or e.possible(q, e.seq_len(q, new) - L - ONE) != ZER or elem(e, q.copy(), new, L) != p:
                return "the first two vertices to be stored"
            return None
        if m == ZER:
            s = o.sign(det(D.at(q, 0), D.at(q, 1), p))
            want = {0: (D.at(q, 0), p), 1: (p, D.at(q, 0), D.at(q, 1), p), -1: (p, D.at(q, 1), D.at(q, 0), p)}[s]
            if inner or e.possible(q, e.seq_len(q, new) - Poly.const(len(want))) != ZER:
                return f"{len(want)} entries"
            got = [elem(e, q.copy(), new, Poly.const(i)) for i in range(len(want))]
            lens = repr(L)
            two = lambda cs: [tuple(re.sub(re.escape(lens) + r" - (\d)", lambda z: str(2 - int(z.group(1))), repr(z)) for z in c) for c in cs]
            return None if two(got) == two(want) else "the second vertex to be replaced" if s == 0 else "the triangle in counter-clockwise order, its first and last entry being the new vertex"
        if m != POS:
            raise Inconclusive("size of the queue not decided")
        a = o.sign(det(D.at(q, -2), D.at(q, -1), p))
        b = o.sign(det(D.at(q, 0), D.at(q, 1), p))
        inside = a > 0 and b > 0
        if inside:
            return None if not inner and e.key(q, new) == e.key(q, D.S) else "the vertex to be ignored (strictly left of both end edges)"
        if not inner:
            return "the vertex to be added at both ends"
        # entered with the vertex at both ends
        f = inner[0]
        fs = dinfos[id(f)][2]
        i0 = e.phi_updates(f, next(z for z in dinfos[id(f)][1] if z.kind == "back" and z.info is f).st)[fs][0]
        z = q.copy()
        if e.possible(z, e.seq_len(z, i0) - L - Poly.const(2)) != ZER:
            return "the vertex to be added at both ends"
        j = Poly.atom("j", USZ)
        e.add_sign(z, j, POS | ZER)
        e.add_sign(z, L - j, POS)
        if elem(e, z.copy(), i0, ZERO) != p or elem(e, z.copy(), i0, L + ONE) != p or elem(e, z.copy(), i0, j + ONE) != elem(e, z.copy(), D.S, j):
            return "the vertex to be added at both ends"
        if {kinds[id(i)] for i in inner} != {"head", "tail"}:
            if None in {kinds[id(i)] for i in inner}:
                raise Inconclusive("kind of a dropping loop")
            return "neighbours at both ends to be reconsidered"
        for i, nx in zip(inner, inner[1:]):
            # the second loop continues with what the first one left
            ns = dinfos[id(nx)][2]
            iv = e.phi_updates(nx, next(z for z in dinfos[id(nx)][1] if z.kind == "back" and z.info is nx).st)[ns][0]
            if e.key(q, iv) != e.key(q, start_value(e, i, dinfos[id(i)][2])):
                raise Inconclusive("queue between the dropping loops")
        l = inner[-1]
        F = Deque(e, l, dinfos[id(l)][2], lasts[id(l)])
        s = o.sign(det(F.at(q, 1), F.at(q, 0), F.at(q, -2)))
        if s:
            return None if e.key(q, new) == e.key(q, F.S) else "the queue as the dropping of neighbours left it"
        z = q.copy()
        LF = F.len(z)
        e.add_sign(z, LF - Poly.const(2), POS)
        if e.possible(z, e.seq_len(z, new) - LF + ONE) != ZER:
            return "the new vertex to be dropped at one end (in line with both neighbours)"
        e.add_sign(z, LF - j - Poly.const(2), POS)
        k0 = elem(e, z.copy(), new, ZERO)
        return None if k0 == F.at(z, 1) or k0 == F.at(z, 0) else "the new vertex to be dropped at one end (in line with both neighbours)"
    names = set()
    for o in back:
        for b in bases(o):
            names |= {a for k in o.st.facts if isinstance(k, Poly) for a in k.atoms() if BASE.match(str(a))}
    # a row involves at most a handful of points; the catalogue ranges over the points of one step
    p0 = p_of(back[0].st.copy())
    core = [repr(z) for z in p0]
    for o in back:
        for i in (0, 1, -1, -2):
            try:
                core += [repr(z) for z in D.at(o.st, i)]
            except Inconclusive:
                pass
    core = list(dict.fromkeys(core))
    Rows(ctx, "Melkman step", key, back, st, spec, Catalogue(core, 0, 3, rnd=60000, span=9).ignore("."), core, eng=e).run()
    result(ctx, key, e, outs, D)


def drop_loop(ctx, key, e, st, info, os, sq, last):
    """drops the neighbour of the new vertex while the turn there is not strictly left; returns which end it works on"""
    back = [o for o in os if o.kind == "back" and o.info is info]
    ends = set()
    D = Deque(e, info, sq, last)
    for o in back:
        for ev in o.st.events():
            if ev[0] == "remove" and e.key(o.st, ev[1]) == "<" + sq + ">":
                L = D.len(o.st)
                q = o.st.copy()
                if D.last:
                    e.add_sign(q, phi_atom(info, D.last) - L + ONE, ZER)
                i = ev[2] if isinstance(ev[2], Poly) else ev[2].p
                if e.possible(q, i - ONE) == ZER:
                    ends.add("head")
                elif e.possible(q, i - L + Poly.const(2)) == ZER:
                    ends.add("tail")
                elif e.possible(q, i - L + Poly.const(2)) & ZER == 0 and e.possible(q, i - ONE) & ZER == 0 or i.is_const():
                    ends.add("wrong")
    if len(ends) != 1:
        return None
    end = ends.pop()
    name = f"Melkman {end} neighbours"
    if end == "wrong":
        ctx.violation(f"Melkman|{key}|dropped", where_of(ctx, key), "Melkman: an entry that is not next to the new vertex is dropped", {})
        return end
    others = [o for o in os if o.kind != "panic" and not (o.kind == "back" and o.info is info)]

    def spec(o, x):
        q = x.st
        if end == "tail":
            s = o.sign(det(D.at(q, -3), D.at(q, -2), D.at(q, -1)))
        else:
            s = o.sign(det(D.at(q, 0), D.at(q, 1), D.at(q, 2)))
        go = x in back
        if go == (s <= 0):
            return None
        return "the neighbour to be dropped (no strictly left turn)" if s <= 0 else "the neighbour to be kept (strictly left turn)"
    core = []
    for i in ((-3, -2, -1) if end == "tail" else (0, 1, 2)):
        core += [repr(z) for z in D.at(back[0].st, i)]
    core = list(dict.fromkeys(core))
    Rows(ctx, name, key, back + others, st, spec, Catalogue(core, 0, 3, rnd=30000, span=9).ignore("."), core, eng=e).run()
    return end


def result(ctx, key, e, outs, D):
    """everything but the repeated last entry is returned, in order"""
    for o in outs:
        if o.kind != "ret":
            continue
        rp = polygon_points(e, o.st, o.val)
        if isinstance(rp, Arr) and not rp.f:
            if e.possible(o.st, D.len(o.st) - ONE) & POS:
                q = o.st.copy()
                ctx.inconclusive("Melkman result", key, "an empty result may be returned")
            continue
        if not isinstance(rp, Opq):
            ctx.inconclusive("Melkman result", key, "returned vertices not recognised")
            return
        if rp.t.startswith("sub("):
            j = Poly.atom("j", USZ)
            q = o.st.copy()
            e.add_sign(q, j, POS | ZER)
            e.add_sign(q, e.seq_len(q, rp) - j, POS)
            if e.possible(q, e.seq_len(q, rp) - D.len(q) + ONE) != ZER or elem(e, q, rp, j) != elem(e, q, D.S, j):
                ctx.inconclusive("Melkman result", key, "returned vertices not recognised")
                return
            continue
        fill = [(i, os) for i, os in loops_of(outs) if rp.t in i.phis.values()]
        if len(fill) != 1:
            ctx.inconclusive("Melkman result", key, "returned vertices not recognised")
            return
        info, os = fill[0]
        L = D.len(info.start)
        for m, what in ((L - ONE, None), (L, "the repeated last entry is part of the result"), (L - Poly.const(2), "a vertex is missing from the result")):
            try:
                lp = ring_loop(e, info, os, m)
            except Inconclusive:
                continue
            if what:
                ctx.violation(f"Melkman|{key}|result", where_of(ctx, key), f"Melkman: {what}", {})
                return
            break
        else:
            ctx.inconclusive("Melkman result", key, "the copy of the queue was not recognised")
            return
        for r in lp.rows:
            if r.kind != "back":
                continue
            nv = r.upd[rp.t][1]
            i = e.seqinfo.get(nv.t) if isinstance(nv, Opq) else None
            if not i or i[0] != "push" or coords(e, r.o.st, i[2]) != elem(e, r.o.st.copy(), D.S, lp.k):
                ctx.violation(f"Melkman|{key}|result points", where_of(ctx, key), "Melkman: a returned vertex is not the entry at its place", {"value": e.key(r.o.st, nv)[:300]})
                return
    ctx.obligation("Melkman result", function=key)


def run(ctx):
    gift(ctx)
    graham(ctx)
    melkman(ctx)
