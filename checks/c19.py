from geo import *
from spec import Table, Catalogue, strip, facts_str, rows, describe
from engine import State, Inconclusive

LEVEL = "other"
EXPLANATION = ("Every ordering in the crate (each Ord/PartialOrd/PartialEq/TotalOrd implementation and each comparator closure handed to a sort or "
               "selection) is composed with itself over shared facts: antisymmetry, reflexivity, transitivity and agreement of ==, partial_cmp, cmp and "
               "total_cmp are decided on every path partition; the point order is compared with the lexicographic specification.")
ASSUMPTIONS = ["a scalar's own order is total and agrees with its == (floats: excluding NaN and the two zeros)",
               "candidate mismatches are reported when inhabited by a catalogue of small integer assignments of the atoms involved"]
NUMS = {"Less": -1, "Equal": 0, "Greater": 1}


def dyn_cat(facts):
    at_ = set()
    for k in facts:
        if isinstance(k, Poly):
            at_ |= k.atoms()
    names = sorted(at_)
    if len(names) > 14 or any(x in n for n in names for x in ("wrap_", "inv(", "idiv(", "irem(", "rem(", "fl(")):
        return None, names
    return Catalogue(names, 0, 2, maxn=200000, rnd=40000, span=5), names


def inhabited(st):
    for k in st.facts:
        if not isinstance(k, Poly):
            # opaque discrete facts (booleans, variants): free choices
            continue
    c, names = dyn_cat(st.facts)
    if c is None:
        return None
    if not names:
        return {}
    i, unk = c.witness(st.facts)
    return None if i is None else c.show(i, names)


def run(ctx):
    P = ctx.P
    npair = 0
    # ---- implementations
    def tyname(t):
        pre = ""
        while t[0] == "ref":
            pre, t = pre + "&", t[1]
        return pre + (t[1].split("::")[-1] if t[0] in ("adt",) else "(A,B)" if t[0] == "tuple" else str(t[1]))

    impls = {}
    for (key, l) in P.impl_index.items():
        if len(key) != 2:
            continue
        tr, m = key
        if (tr, m) not in (("core::cmp::Ord", "cmp"), ("core::cmp::PartialOrd", "partial_cmp"), ("core::cmp::PartialEq", "eq"), (R + "TotalOrd", "total_cmp")):
            continue
        for s, ta, k in l:
            f = P.fns.get(k)
            if f is None or not f.get("primary") or f["crate"] != "rgeometry":
                continue
            if len(ta) > 1 and ta[1] != s:
                continue
            impls.setdefault(s, {})[m] = k
    for s, ms in sorted(impls.items(), key=lambda x: repr(x[0])):
        if not ({"cmp", "total_cmp"} & set(ms)):
            continue
        name = tyname(s)
        laws(ctx, name, [(m, ms[m]) for m in ("cmp", "total_cmp", "partial_cmp", "eq") if m in ms], lambda e, st, n, s=s: e.mkdeep(st, n, s))
        npair += 1
    if npair < 12:
        ctx.missing(f"ordered types of the crate (found {npair}, expected at least 12)", npair)

    # ---- comparator closures
    ncl = 0
    generic = {f["path"] for f in P.fns.values() if f["kind"] == "Closure" and f["args"] and f["args"][0][0] == "param"}
    for k, f in sorted(P.fns.items()):
        if f["path"] in generic and not (f["args"] and f["args"][0][0] == "param"):
            continue
        if f["kind"] != "Closure" or not f.get("primary") or f["crate"] != "rgeometry":
            continue
        b = P.body(k)
        if b["argc"] != 3 or b["locals"][0] != ("adt", "core::cmp::Ordering", ()) or b["locals"][2] != b["locals"][3] and shape_ty(b["locals"][2]) != shape_ty(b["locals"][3]):
            continue
        ncl += 1
        laws(ctx, "comparator in " + nice(f["path"]), [("closure", k)], lambda e, st, n, t=b["locals"][2]: e.mkdeep(st, n, t), closure=True)
    if ncl < 4:
        ctx.missing(f"comparator closures (found {ncl}, expected at least 4)", ncl)

    # ---- the point order is lexicographic by coordinate
    pk = lambda tr, m: [k for s, ta, k in P.impl_index.get((tr, m), []) if s[0] == "adt" and s[1] == POINT and P.fns[k].get("primary")]
    dims = {1: "x", 2: "xy", 3: "xyz"}

    def pt(n, d):
        return Adt(POINT, 0, [Arr([Num(at(n + c), T) for c in dims[d]])], ("adt", POINT, (T, ("const", d))))
    for tr, m in (("core::cmp::Ord", "cmp"), ("core::cmp::PartialOrd", "partial_cmp"), ("core::cmp::PartialEq", "eq"), (R + "TotalOrd", "total_cmp")):
        ks = pk(tr, m)
        if len(ks) != 1:
            ctx.missing(f"{tr.split('::')[-1]} for Point", len(ks))
            continue

        for d in dims:
            def spec(o, x, m=m, d=d):
                if x.kind != "ret":
                    return "a result, not a panic"
                l = next((s_ for s_ in (o.sign(at("a" + c) - at("b" + c)) for c in dims[d]) if s_), 0)
                if m == "eq":
                    return expect_bool(o, x, l == 0)
                v = x.val
                if m == "partial_cmp":
                    if o.vname(v) == "None":
                        return "Some(order)"
                    v = o.field(v, 0, 1)
                g = o.vname(v)
                return None if g == cmp_name(l) else cmp_name(l)
            e, st = ctx.engine(), State()
            e.N = d
            names = [n + c for n in "ab" for c in dims[d]]
            Table(ctx, f"Point {m} is lexicographic ({d} coordinates)", ks[0], [ref(e, st, pt("a", d)), ref(e, st, pt("b", d))], st, spec,
                  Catalogue(names, 0, 2), names, eng=e).run()

    # ---- total_min / total_max select by total_cmp
    for m, sg in (("total_min", 1), ("total_max", -1)):
        ks = P.impl_index.get((R + "TotalOrd", m, "default"), [])
        if len(ks) != 1:
            ctx.missing(f"TotalOrd::{m}", len(ks))
            continue
        e, st = ctx.engine(), State()
        A, B = at("a"), at("b")

        def mspec(o, x, sg=sg):
            if x.kind != "ret":
                return "a value"
            v = o.eng.deref(o.st, x.val)
            if not isinstance(v, Num):
                return None
            for w in (A, B):
                if o.sign(v.p - w) * sg > 0:
                    return f"the {'smaller' if sg > 0 else 'larger'} argument"
            return None if v.p in (A, B) else "one of the arguments"
        Table(ctx, f"TotalOrd::{m}", ks[0], [Num(A, T), Num(B, T)], st, mspec, Catalogue(["a", "b"], 0, 3), ["a", "b"], eng=e).run()


def nice(p):
    return p.replace("rgeometry::", "").replace("{closure#", "closure ").replace("}", "")


def shape_ty(t):
    return strip(t)


def laws(ctx, name, fns, mkv, closure=False):
    """antisymmetry, reflexivity, transitivity and mutual agreement"""
    P = ctx.P

    def caller(e, k, env):
        def call(st, x, y):
            if closure:
                outs = e.exec_fn(k, [env, x, y], st, 1)
            else:
                outs = e.exec_fn(k, [x, y], st, 1)
            for o in outs:
                if o.kind == "ret":
                    yield o.val, o.st
        return call

    def decode(e, m, v, st):
        """[(sign or bool, state)]"""
        class O:
            pass
        out = []
        for r, s in rows(e, st, lambda o: _dec(o, m, v)):
            out.append((r, s))
        return out

    def _dec(o, m, v):
        if m == "eq":
            v = o.eng.deref(o.st, v)
            return ("eq", v if isinstance(v, bool) else o.bool(v))
        if m == "partial_cmp":
            if o.vname(v) == "None":
                return ("cmp", None)
            v = o.field(v, 0, 1)
        return ("cmp", NUMS[o.vname(v)])

    def setup(names):
        e, st = ctx.engine(), State()
        e.steps = 0
        env = None
        if closure:
            b = P.body(fns[0][1])
            t1 = b["locals"][1]
            byref = t1[0] == "ref"
            ct = strip(t1)
            ups = [e.mkdeep(st, f"env{i}", u) for i, u in enumerate(ct[2] or ())]
            env = Clo(fns[0][1], ups)
            if byref:
                env = Ref(e.new_cell(st, env), (), True)
        vs = []
        for n in names:
            v = mkv(e, st, n)
            if not closure and not isinstance(v, Ref):
                v = ref(e, st, v)
            elif not closure:
                v = ref(e, st, v)
            vs.append(v)
        return e, st, env, vs

    where = ctx.where(P.fns[fns[0][1]])

    def bad(rule, e, st, detail, m):
        w = inhabited(st)
        if w is None:
            return False
        ctx.violation(f"{rule}|{name}|{m}", where, f"{name} ({m}): {rule}: {detail}", {"path_facts": facts_str(st), "witness": w})
        return True

    n = 0
    try:
        for m, k in fns:
            # reflexivity
            e, st, env, (x,) = setup(["x"])
            c = caller(e, k, env)
            for v, s in c(st, x, x):
                for (kind, r), s2 in decode(e, m, v, s):
                    n += 1
                    if r is not (True if kind == "eq" else 0) and r != (True if kind == "eq" else 0):
                        bad("reflexivity", e, s2, f"a value compared with itself gives {r}", m)
            # antisymmetry
            e, st, env, (x, y) = setup(["x", "y"])
            c = caller(e, k, env)
            for v, s in c(st, x, y):
                for (kind, r), s2 in decode(e, m, v, s):
                    for v2, s3 in c(s2, y, x):
                        for (_, r2), s4 in decode(e, m, v2, s3):
                            n += 1
                            if kind == "eq" and r != r2 or kind == "cmp" and (r is None) != (r2 is None) or kind == "cmp" and r is not None and r != -r2:
                                bad("antisymmetry", e, s4, f"(x,y) gives {r} but (y,x) gives {r2}", m)
            # transitivity
            e, st, env, (x, y, z) = setup(["x", "y", "z"])
            c = caller(e, k, env)
            for v, s in c(st, x, y):
                for (kind, r), s2 in decode(e, m, v, s):
                    if r is None or r is False or (kind == "cmp" and r > 0):
                        continue
                    for v2, s3 in c(s2, y, z):
                        for (_, r2), s4 in decode(e, m, v2, s3):
                            if r2 is None or r2 is False or (kind == "cmp" and r2 > 0):
                                continue
                            for v3, s5 in c(s4, x, z):
                                for (_, r3), s6 in decode(e, m, v3, s5):
                                    n += 1
                                    if kind == "eq":
                                        if not r3:
                                            bad("transitivity", e, s6, "x == y and y == z but x != z", m)
                                    else:
                                        want = min(r, r2)
                                        if r3 is None or r3 != want:
                                            bad("transitivity", e, s6, f"(x,y) gives {r}, (y,z) gives {r2}, but (x,z) gives {r3}", m)
        # agreement with the first
        if len(fns) > 1:
            m0, k0 = fns[0]
            for m, k in fns[1:]:
                e, st, env, (x, y) = setup(["x", "y"])
                c0, c1 = caller(e, k0, env), caller(e, k, env)
                for v, s in c0(st, x, y):
                    for (_, r), s2 in decode(e, m0, v, s):
                        for v2, s3 in c1(s2, x, y):
                            for (kind, r2), s4 in decode(e, m, v2, s3):
                                n += 1
                                if kind == "eq" and r2 != (r == 0) or kind == "cmp" and r2 != r:
                                    bad("agreement", e, s4, f"{m0} gives {r} but {m} gives {r2}", m)
    except Inconclusive as ex:
        ctx.inconclusive(f"order laws of {name}", fns[0][1], str(ex))
        return
    ctx.obligation(f"order laws of {name}", rows=n, function=fns[0][1], implementations=[m for m, _ in fns])
