from polyg import *
from spec import Table, Compose, Catalogue

LEVEL = "other"
EXPLANATION = ("Cursor, position and boundary-iterator operations are analysed on a symbolic ring of symbolic size with symbolic positions; their path "
               "partitions (and those of every composition of up to three iterator steps) are compared with cyclic-sequence semantics."
               " A provided iterator method that an implementation overrides (skipping, last, count, size hint, from the back) must agree with stepping.")
ASSUMPTIONS = ["a cursor's position lies on its ring and its size is the ring's length (what C10 decides)",
               "an iterator's two cursors belong to the same ring of the same polygon",
               "candidate mismatches are reported when inhabited by a catalogue of small ring sizes and positions"]
CU = CURSOR + "::"


def setup(ctx, names, ringname="r"):
    """(engine, state, polygon, ring, size, {name: position}, catalogue)"""
    e, st = ctx.engine(), State()
    p = Poly_(e, st)
    r = at(ringname, USZ)
    e.add_sign(st, e.seq_len(st, p.rings(st)) - r, POS)
    n = p.size(st, r)
    e.add_sign(st, n, POS)
    pos = {}
    for x in names:
        pos[x] = at(x, USZ)
        e.add_sign(st, n - pos[x], POS)
        e.add_sign(st, pos[x], POS | ZER)
    na = repr(n)
    cat = Catalogue([na] + list(names), 0, 5, rnd=20000, span=9).ignore(r"\[|len\(p\.|^r$")
    return e, st, p, r, n, pos, cat, [na] + list(names)


def at_pos(o, v, poly_key, r, n, want):
    """None when the cursor value v stands at position `want` of ring r of the polygon"""
    (rr, nn, pp), pk = cursor_of(o.eng, o.st, v)
    if pk != poly_key:
        return "a cursor of the same polygon"
    if not (rr - r).t == () and not same_num(o, rr, r):
        return "a cursor on the same ring"
    if not same_num(o, nn, n):
        return "a cursor that knows the size of its ring"
    return None if same_num(o, pp, want) else f"the vertex at position {want}"


def run(ctx):
    P = ctx.P
    k = {m: ctx.one(CU + m) for m in ("next", "prev", "move_next", "move_prev", "point_id", "point", "to", "orientation", "is_colinear")}
    pk_ = {m: ctx.one(POSITION + "::" + m) for m in ("next", "prev", "move_next", "move_prev")}

    def meth(tr, name, ty):
        ks = [x for x in ctx.find(name=name, trait=tr, self_ty=lambda t: t and t[0] == "adt" and t[1] == ty)]
        if len(ks) != 1:
            ctx.missing(f"{name} of {ty.split('::')[-1]}", len(ks))
            return None
        return ks[0]
    IT = "core::iter::traits::"
    nxt, hint = meth(IT + "iterator::Iterator", "next", CITER), meth(IT + "iterator::Iterator", "size_hint", CITER)
    ln, back = meth(IT + "exact_size::ExactSizeIterator", "len", CITER), meth(IT + "double_ended::DoubleEndedIterator", "next_back", CITER)
    clone = meth("core::clone::Clone", "clone", CITER)
    enext = meth(IT + "iterator::Iterator", "next", EITER)
    iterb, edges, curs, slc, direct = (ctx.one(POLY + "::" + m) for m in ("iter_boundary", "iter_boundary_edges", "cursor", "boundary_slice", "direct"))

    # ---- stepping
    for who, keys in (("Cursor", k), ("Position", pk_)):
        for m in ("next", "prev", "move_next", "move_prev"):
            if not keys[m]:
                continue
            e, st, p, r, n, pos, cat, names = setup(ctx, ["c"])
            c = cursor(e, st, p, r, n, pos["c"]) if who == "Cursor" else position(e, r, n, pos["c"])
            mv = m.startswith("move")
            arg = ref(e, st, c, True) if mv else c
            pkey = e.key(st, p.val(st))

            def spec(o, x):
                if x.kind != "ret":
                    return "a step along the ring, not a panic"
                v = arg if mv else x.val
                want = succ(o, pos["c"], n) if "next" in m else pred(o, pos["c"], n)
                if who == "Cursor":
                    return at_pos(o, v, pkey, r, n, want)
                rr, nn, pp = position_of(o.eng, o.st, v)
                if not same_num(o, rr, r) or not same_num(o, nn, n):
                    return "the same ring"
                return None if same_num(o, pp, want) else f"position {want}"
            Table(ctx, f"{who}::{m}", keys[m], [arg], st, spec, cat, names, eng=e).run()

    # ---- what a cursor designates
    for m in ("point_id", "point", "deref"):
        key = k.get(m) or meth("core::ops::deref::Deref", "deref", CURSOR)
        if not key:
            continue
        e, st, p, r, n, pos, cat, names = setup(ctx, ["c"])
        c = cursor(e, st, p, r, n, pos["c"])

        def spec(o, x):
            # out-of-range vertex numbers may panic: C10 excludes them
            if x.kind != "ret":
                return None
            if m == "point_id":
                return None if same_num(o, num(e, o.st, x.val), p.pid(o.st, pos["c"], r)) else "the vertex number stored at the position"
            return None if o.same(x.val, p.vertex(o.st, pos["c"], r)) else "the point of the vertex at the position"
        Table(ctx, f"Cursor::{m}", key, [ref(e, st, c) if m == "deref" else c], st, spec, cat, names, eng=e).run()
    if curs:
        e, st, p, r, n, pos, cat, names = setup(ctx, ["c"])
        i = at("i", USZ)
        pid = wrap(PTID, i)
        pkey = e.key(st, p.val(st))

        def spec(o, x):
            if x.kind != "ret":
                return None
            ring = num(e, o.st, e.seq_read(o.st, p.ringidx(o.st), i))
            posn = num(e, o.st, e.seq_read(o.st, p.posidx(o.st), i))
            return at_pos(o, x.val, pkey, ring, p.size(o.st, ring), posn)
        Table(ctx, "Polygon::cursor", curs, [p.ref, pid], st, spec, None, eng=e).run()
    if slc:
        e, st, p, r, n, pos, cat, names = setup(ctx, [])
        Table(ctx, "Polygon::boundary_slice", slc, [p.ref], st,
              lambda o, x: None if x.kind != "ret" or o.same(x.val, p.ring(o.st)) else "the outer ring", None, eng=e).run()
    for m in ("orientation", "is_colinear"):
        if k[m]:
            e, st, p, r, n, pos, cat, names = setup(ctx, ["c"])
            c = cursor(e, st, p, r, n, pos["c"])

            def spec(o, x):
                if x.kind != "ret":
                    return None
                co = []
                for q in (pred(o, pos["c"], n), pos["c"], succ(o, pos["c"], n)):
                    a = o.field(o.eng.deref(o.st, p.vertex(o.st, q, r)), 0)
                    co.append(tuple(num(e, o.st, e.seq_read(o.st, o.eng.deref(o.st, a), Poly.const(j))) for j in (0, 1)))
                s = o.sign(det(*co))
                return expect_enum(o, x, orient_name(s)) if m == "orientation" else expect_bool(o, x, s == 0)
            Table(ctx, f"Cursor::{m}", k[m], [ref(e, st, c)], st, spec, cat.ignore(r"\[|len\(p\.|^r$"), names, eng=e).run()
    eqc = meth("core::cmp::PartialEq", "eq", CURSOR)
    if eqc:
        e, st, p, r, n, pos, cat, names = setup(ctx, ["c", "d"])
        c, d = (cursor(e, st, p, r, n, pos[x]) for x in "cd")
        Table(ctx, "Cursor equality", eqc, [ref(e, st, c), ref(e, st, d)], st,
              lambda o, x: expect_bool(o, x, same_num(o, pos["c"], pos["d"])), cat, names, eng=e).run()

    # ---- boundary iterators as cyclic sequences
    starts = []
    if iterb:
        starts.append(("iter_boundary", None))
    if k["to"]:
        starts += [("to(Unbounded)", 2), ("to(Included)", 0), ("to(Excluded)", 1)]
    BOUND = "core::ops::range::Bound"
    if not all((nxt, back, ln, hint)):
        return
    for sname, var in starts:
        depth = 3 if var == 0 else 2
        scripts = [""]
        for _ in range(depth):
            scripts = [s + c for s in scripts for c in "fb"] + [s for s in scripts if len(s) < _]
        for script in sorted(set(scripts), key=lambda s: (len(s), s)):
            if len(script) != depth:
                continue
            e, st, p, r, n, pos, cat, names = setup(ctx, ["c", "d"])
            c, d = (cursor(e, st, p, r, n, pos[x]) for x in "cd")
            pkey = e.key(st, p.val(st))

            def prog(step, st):
                if var is None:
                    first = step(iterb, [p.ref], st)
                else:
                    vs = [v["n"] for v in P.adts[BOUND]["variants"]] if BOUND in P.adts else ["Included", "Excluded", "Unbounded"]
                    nm = ["Included", "Excluded", "Unbounded"][var]
                    bnd = Adt(BOUND, vs.index(nm), [] if var == 2 else [d], ("adt", BOUND, (CUR_TY,)))
                    first = step(k["to"], [c, bnd], st)
                for it, s in first:
                    s = s.copy()
                    cell = Ref(e.new_cell(s, it), (), True)
                    yield from steps(step, s, cell, script, [])

            def steps(step, st, cell, rest, acc):
                for l, s in step(ln, [cell], st):
                    for h, s in step(hint, [cell], s):
                        if not rest:
                            yield Tup(acc + [l, h]), s
                            continue
                        for v, s2 in step(nxt if rest[0] == "f" else back, [cell], s):
                            yield from steps(step, s2, cell, rest[1:], acc + [l, h, v])

            def spec(o, x):
                if x.kind != "ret":
                    return "a step, not a panic"
                rr, nn = (r, n) if var is not None else (Poly.const(0), p.size(o.st))
                head = pos["c"] if var is not None else Poly.const(0)
                if var is None:
                    o.st.facts  # the ring is not empty
                    if o.sign(nn) <= 0:
                        return None
                if var is None or var == 2:
                    tail = pred(o, head, nn)
                elif var == 0:
                    tail = pos["d"]
                else:
                    tail = pred(o, pos["d"], nn)
                s = o.sign(tail - head)
                left = tail - head + ONE if s >= 0 else nn - head + tail + ONE
                if var == 1 and o.sign(pos["c"] - pos["d"]) == 0:
                    left = ZERO      # a half-open range that ends where it starts
                items = list(x.val.f)
                for ch in script + ".":
                    l, h = items.pop(0), items.pop(0)
                    if not same_num(o, num(e, o.st, l), left):
                        return f"len() = {left} before step {len(script) - len(items) // 3 + 1}"
                    lo, hi = o.field(h, 0), o.field(h, 1)
                    if not same_num(o, num(e, o.st, lo), left) or o.vname(hi) != "Some" or not same_num(o, num(e, o.st, o.field(hi, 0, 1)), left):
                        return f"size_hint() = ({left}, Some({left}))"
                    if ch == ".":
                        break
                    v = items.pop(0)
                    if o.sign(left) == 0:
                        if o.vname(v) != "None":
                            return "None once every vertex was visited"
                        continue
                    if o.vname(v) != "Some":
                        return "the next vertex, not the end"
                    want = head if ch == "f" else tail
                    m = at_pos(o, o.field(v, 0, 1), pkey, rr, nn, want)
                    if m:
                        return m + f" after the steps {script}"
                    left = left - ONE
                    if ch == "f":
                        head = succ(o, head, nn)
                    else:
                        tail = pred(o, tail, nn)
                return None
            cc = cat
            nms = names
            if var is None:
                na = repr(p.size(st))
                cc, nms = Catalogue([na], 0, 9, rnd=10).ignore(r"\[r\]|^r$|^[cd]$|len\(p\.rings\)"), [na]
            Compose(ctx, f"{sname} then {script}", iterb if var is None else k["to"], prog, st, spec, cc, nms, eng=e).run()

    # ---- edges: each boundary vertex paired with its successor
    if enext and edges and nxt:
        e, st, p, r, n, pos, cat, names = setup(ctx, ["c"])
        n0 = p.size(st)

        def prog(step, st):
            for it, s in step(edges, [p.ref], st):
                s = s.copy()
                cell = Ref(e.new_cell(s, it), (), True)
                for a, s in step(enext, [cell], s):
                    for b, s in step(enext, [cell], s):
                        yield Tup([a, b]), s

        def spec(o, x):
            if x.kind != "ret" or o.sign(n0) <= 0:
                return None
            done = 0
            cur = Poly.const(0)
            DE = P.adts[R + "data::directed_edge::DirectedEdge"]["variants"][0]["f"]
            ns = [f["n"] for f in DE]
            for v in x.val.f:
                if o.sign(n0 - Poly.const(done)) == 0:
                    if o.vname(v) != "None":
                        return "the end after one edge per vertex"
                    continue
                if o.vname(v) != "Some":
                    return "an edge for every vertex"
                ed = o.field(v, 0, 1)
                nx = succ(o, cur, n0)
                for nm, q in (("src", cur), ("dst", nx)):
                    if not o.same(o.field(ed, ns.index(nm)), p.vertex(o.st, q)):
                        return f"edge {done} with {nm} = the vertex at position {q}"
                cur = nx
                done += 1
            return None
        na = repr(n0)
        Compose(ctx, "iter_boundary_edges yields each vertex with its successor", edges, prog, st, spec,
                Catalogue([na], 0, 9, rnd=10).ignore(r"\[|len\(p\.|^[cr]$"), [na], eng=e).run()

    overrides(ctx, k, meth, iterb, edges, nxt, ln, enext)

    # ---- directing an undirected edge
    if direct:
        e, st, p, r, n, pos, cat, names = setup(ctx, ["a", "b"])
        names_ = [f["n"] for f in P.adts[IEDGE]["variants"][0]["f"]]
        ia, ib = at("i", USZ), at("j", USZ)
        # both end points lie on the same ring, at positions a and b
        m = {"min": wrap(PTID, ia), "max": wrap(PTID, ib)}
        edge = Adt(IEDGE, 0, [m[x] for x in names_], ("adt", IEDGE, ()))

        def spec(o, x):
            ri = num(e, o.st, e.seq_read(o.st, p.ringidx(o.st), ia))
            rj = num(e, o.st, e.seq_read(o.st, p.ringidx(o.st), ib))
            pi = num(e, o.st, e.seq_read(o.st, p.posidx(o.st), ia))
            pj = num(e, o.st, e.seq_read(o.st, p.posidx(o.st), ib))
            if x.kind == "panic" and "bounds" in str(x.val):
                return None
            # only edges of one ring with positions inside it are in scope
            if o.sign(ri - rj) != 0:
                return None
            nn = p.size(o.st, ri)
            if not (o.sign(nn - pi) > 0 and o.sign(nn - pj) > 0 and o.sign(p.size(o.st, rj) - nn) == 0):
                return None
            if same_num(o, succ(o, pi, nn), pj):
                want = (ia, ib)
            elif same_num(o, succ(o, pj, nn), pi):
                want = (ib, ia)
            else:
                return None
            if x.kind != "ret":
                return "the direction of the edge, not a panic"
            ns = [f["n"] for f in P.adts[DEDGE]["variants"][0]["f"]]
            for nm, w in zip(("src", "dst"), want):
                if not same_num(o, num(e, o.st, o.field(x.val, ns.index(nm))), w):
                    return f"{nm} = {w}"
            return None
        qs = [num(e, st, e.seq_read(st, p.posidx(st), x)) for x in (ia, ib)]
        rs = [num(e, st, e.seq_read(st, p.ringidx(st), x)) for x in (ia, ib)]
        ls = [p.size(st, x) for x in rs]
        nm = [repr(x) for x in qs + ls]
        Table(ctx, "Polygon::direct", direct, [p.ref, edge], st, spec, Catalogue(nm, 0, 6).ignore(r""), nm, eng=e).run()

    # ---- forgetting the direction: the two end points, smaller first
    IE = R + "data::polygon::IndexEdge"
    if IE in P.adts and DEDGE in P.adts:
        keys = [(k, "pair") for k in ctx.find(IE + "::new")]
        keys += [(k, "edge") for k in ctx.find(name="from", trait="core::convert::From", self_ty=lambda t: t == ("adt", IE, ()))
                 if P.fns[k]["inputs"][0][0] == "adt" and P.fns[k]["inputs"][0][1] == DEDGE]
        for k, form in keys:
            e, st = ctx.engine(), State()
            a, b = at("a", USZ), at("b", USZ)
            pid = lambda x: Adt(R + "data::polygon::PointId", 0, [Num(x, USZ)], ("adt", R + "data::polygon::PointId", ()))
            args = [pid(a), pid(b)]
            if form == "edge":
                ns = [f["n"] for f in P.adts[DEDGE]["variants"][0]["f"]]
                d = dict(zip(("src", "dst"), args))
                args = [Adt(DEDGE, 0, [d[x] for x in ns], ("adt", DEDGE, ()))]
            names = [f["n"] for f in P.adts[IE]["variants"][0]["f"]]

            def spec(o, x, e=e, names=names):
                if x.kind != "ret":
                    return "an edge, not a panic"
                lo, hi = (num(e, o.st, o.field(x.val, names.index(m))) for m in ("min", "max"))
                s = o.sign(a - b)
                for what, v, w in (("smaller", lo, a if s < 0 else b), ("larger", hi, b if s < 0 else a)):
                    if v != w and o.sign(v - w) != 0:
                        return f"{w} as its {what} end point"
                return None
            try:
                Table(ctx, f"undirected edge from {'two end points' if form == 'pair' else 'a directed edge'}", k, args, st, spec, Catalogue(["a", "b"], 0, 2), ["a", "b"], eng=e).run()
            except Inconclusive as x:
                ctx.inconclusive("undirected edge", k, str(x))


def overrides(ctx, k, meth, iterb, edges, nxt, ln, enext):
    """provided iterator methods the crate replaces by its own: they must agree with stepping one by one"""
    IT = "core::iter::traits::"
    P = ctx.P
    BOUND = "core::ops::range::Bound"
    forms = [("nth", IT + "iterator::Iterator", (0, 1, 2)), ("nth_back", IT + "double_ended::DoubleEndedIterator", (0, 1, 2)),
             ("last", IT + "iterator::Iterator", (None,)), ("count", IT + "iterator::Iterator", (None,)),
             ("size_hint", IT + "iterator::Iterator", (None,)), ("len", IT + "exact_size::ExactSizeIterator", (None,)),
             ("next_back", IT + "double_ended::DoubleEndedIterator", (None,))]
    quiet = lambda ty, name: any(True for x in ctx.find(name=name) if (P.fns[x].get("impl_self") or ("",))[0] == "adt" and P.fns[x]["impl_self"][1] == ty)
    for ty, who in ((CITER, "vertices"), (EITER, "edges")):
        for name, tr, ks in forms:
            if ty == CITER and name in ("size_hint", "len", "next_back") or not quiet(ty, name):
                continue
            key = meth(tr, name, ty)
            if not key or not edges or not enext or not k["to"]:
                continue
            for q in ks:
                # vertices: any inclusive or half-open range; edges: the whole boundary after 0, 1 or 2 steps
                for var in ((0, 1) if ty == CITER else (0, 1, 2)):
                    e, st, p, r, n, pos, cat, names = setup(ctx, ["c", "d"])
                    c, d = (cursor(e, st, p, r, n, pos[x]) for x in "cd")
                    pkey = e.key(st, p.val(st))
                    n0 = n if ty == CITER else p.size(st)

                    def prog(step, st):
                        if ty == CITER:
                            vs = [v["n"] for v in P.adts[BOUND]["variants"]] if BOUND in P.adts else ["Included", "Excluded", "Unbounded"]
                            first = step(k["to"], [c, Adt(BOUND, vs.index(["Included", "Excluded"][var]), [d], ("adt", BOUND, (CUR_TY,)))], st)
                        else:
                            first = step(edges, [p.ref], st)
                        for it, s in first:
                            s = s.copy()
                            cell = Ref(e.new_cell(s, it), (), True)
                            after = [s]
                            if ty == EITER:
                                for _ in range(var):
                                    after = [s2 for s in after for _v, s2 in step(enext, [cell], s)]
                            for s in after:
                                by_value = name in ("last", "count")
                                args = [e.deref(s, cell)] if by_value else [cell]
                                if q is not None:
                                    args.append(Num(Poly.const(q), USZ))
                                for v, s2 in step(key, args, s):
                                    if by_value or ty == EITER:
                                        yield Tup([v]), s2
                                    else:
                                        for l, s3 in step(ln, [cell], s2):
                                            yield Tup([v, l]), s3

                    def spec(o, x):
                        if ty == EITER and o.sign(n0) <= 0:
                            return None
                        if x.kind != "ret":
                            return "an answer, not a panic"
                        if ty == CITER:
                            head, rr = pos["c"], r
                            tail = pos["d"] if var == 0 else pred(o, pos["d"], n0)
                            s = o.sign(tail - head)
                            left = tail - head + ONE if s >= 0 else n0 - head + tail + ONE
                            if var == 1 and o.sign(pos["c"] - pos["d"]) == 0:
                                left = ZERO
                        else:
                            head, rr, left = ZERO, Poly.const(0), n0
                            for _ in range(var):
                                if o.sign(left) > 0:
                                    head, left = succ(o, head, n0), left - ONE
                            tail = pred(o, ZERO, n0)
                        v = x.val.f[0]
                        if name == "count" or name == "len":
                            return None if same_num(o, num(e, o.st, v), left) else f"{left} of them"
                        if name == "size_hint":
                            lo, hi = o.field(v, 0), o.field(v, 1)
                            if o.sign(left - num(e, o.st, lo)) < 0:
                                return "a lower bound no larger than the number of vertices left"
                            if o.vname(hi) == "Some" and o.sign(num(e, o.st, o.field(hi, 0, 1)) - left) < 0:
                                return "an upper bound no smaller than the number of vertices left"
                            return None
                        if name == "last":
                            gone, want, rest = left, tail, None
                            ok = o.sign(left) > 0
                        else:
                            m = Poly.const(q or 0)
                            ok = o.sign(left - m) > 0
                            rest = left - m - ONE if ok else ZERO
                            want = head if name == "nth" else tail
                            for _ in range(q or 0):
                                want = succ(o, want, n0) if name == "nth" else pred(o, want, n0)
                        if not ok:
                            if o.vname(v) != "None":
                                return "None past the end"
                        else:
                            if o.vname(v) != "Some":
                                return "one more of them, not the end"
                            if ty == CITER:
                                mm = at_pos(o, o.field(v, 0, 1), pkey, rr, n0, want)
                                if mm:
                                    return mm
                            else:
                                ns = [f["n"] for f in P.adts[R + "data::directed_edge::DirectedEdge"]["variants"][0]["f"]]
                                ed = o.field(v, 0, 1)
                                for nm, w in (("src", want), ("dst", succ(o, want, n0))):
                                    if not o.same(o.field(ed, ns.index(nm)), p.vertex(o.st, w)):
                                        return f"the edge with {nm} = the vertex at position {w}"
                        if len(x.val.f) > 1 and not same_num(o, num(e, o.st, x.val.f[1]), rest):
                            return f"{rest} left afterwards"
                        return None
                    if ty == CITER:
                        cc, nms = cat, names
                    else:
                        na = repr(n0)
                        cc, nms = Catalogue([na], 0, 9, rnd=10).ignore(r"\[|len\(p\.|^[cdr]$"), [na]
                    label = f"{name}{'' if q is None else '(' + str(q) + ')'} of boundary {who} agrees with stepping ({('up to and including', 'up to', '2 taken')[var] if ty == CITER else str(var) + ' taken'})"
                    Compose(ctx, label, key, prog, st, spec, cc, nms, eng=e).run()
