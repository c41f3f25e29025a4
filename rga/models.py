"""Meaning of the foreign (std / num / rand / ...) callees rgeometry uses.

Every entry is keyed by the resolved definition path of the callee.  Anything not listed here is
an opaque value number (engine.unknown_call), never an assumption.
"""
from fractions import Fraction
from poly import Poly, ZERO, ONE, inverse
from values import *

IT = "core::iter::traits::iterator::Iterator"
DIT = "core::iter::traits::double_ended::DoubleEndedIterator"
USZ = ("int", "usize", False)


def install(E):
    from engine import (Outcome, ORD, OPTION, RESULT, VEC, DEQ, some, none, ordv, is_scalar_ty, is_float_ty, int_range,
                        INT_BITS, TRANSPARENT, LESS, EQUAL, GREATER)
    M = E.models

    def model(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def num(eng, st, v):
        v = eng.deref(st, v)
        if isinstance(v, Adt) and v.path in TRANSPARENT and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, Opq) and is_scalar_ty(v.ty):
            v = Num(Poly.atom(v.t, v.ty), v.ty)
        return v if isinstance(v, Num) else None

    def usz(p):
        return Num(p, USZ)

    # ------------------------------------------------------------- arithmetic
    def mk_bin(op):
        def f(eng, st, args, c, dty, fr, sp):
            a, b = num(eng, st, args[0]), num(eng, st, args[1])
            if a is None or b is None:
                return None
            if op in ("Div", "Rem"):
                return eng.divrem(op, a, b, a.ty, st)
            return eng.arith(op, a, b, a.ty, st)
        return f

    def mk_assign(op):
        g = mk_bin(op)

        def f(eng, st, args, c, dty, fr, sp):
            r = g(eng, st, args, c, dty, fr, sp)
            if r is None:
                return None
            out = []
            loc = args[0]
            for v, s in r:
                s = s.copy()
                l2 = loc
                while isinstance(eng.load(s, l2.c, l2.pr), Ref):
                    l2 = eng.load(s, l2.c, l2.pr)
                eng.store(s, l2.c, l2.pr, v)
                out.append((UNIT, s))
            return out
        return f

    for nm, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem")):
        M[f"core::ops::arith::{op}::{nm}"] = mk_bin(op)
        M[f"core::ops::arith::{op}Assign::{nm}_assign"] = mk_assign(op)

    @model("core::ops::arith::Neg::neg")
    def neg(eng, st, args, c, dty, fr, sp):
        a = num(eng, st, args[0])
        return None if a is None else [(eng.num_neg(st, a), st)]

    for nm, op in (("bitxor", "BitXor"), ("bitand", "BitAnd"), ("bitor", "BitOr")):
        def mkb(op):
            def f(eng, st, args, c, dty, fr, sp):
                a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
                if isinstance(a, (bool, Num)) or (isinstance(a, Opq) and a.ty == ("bool",)):
                    return eng.binop(op, a, b, eng.typeof(a), st)
                return None
            return f
        M[f"core::ops::bit::{op}::{nm}"] = mkb(op)

    @model("core::ops::bit::Not::not")
    def not_(eng, st, args, c, dty, fr, sp):
        a = eng.deref(st, args[0])
        if isinstance(a, bool) or (isinstance(a, Opq) and a.ty == ("bool",)):
            return eng.unop("Not", a, ("bool",), st)
        return None

    for b in ("shl", "shr"):
        def mks(op):
            def f(eng, st, args, c, dty, fr, sp):
                a, b_ = num(eng, st, args[0]), num(eng, st, args[1])
                if a is None or b_ is None:
                    return None
                return eng.binop(op, a, b_, a.ty, st)
            return f
        M[f"core::ops::bit::{b.capitalize()}::{b}"] = mks(b.capitalize())

    # ------------------------------------------------------------- comparison
    CMPM = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}
    for nm, op in CMPM.items():
        def mkc(op, nm):
            def f(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                if a is None or b is None:
                    x, y = eng.deref(st, args[0]), eng.deref(st, args[1])
                    if isinstance(x, Adt) and isinstance(y, Adt) and x.path == y.path and not x.f and not y.f:
                        return [({"Lt": x.v < y.v, "Le": x.v <= y.v, "Gt": x.v > y.v, "Ge": x.v >= y.v}[op], st)]
                    # default method: through partial_cmp
                    return None
                return eng.binop(op, a, b, a.ty, st)
            return f
        M[f"core::cmp::PartialOrd::{nm}"] = mkc(op, nm)

    @model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
    def peq(eng, st, args, c, dty, fr, sp):
        op = "Eq" if c["name"] == "eq" else "Ne"
        a, b = num(eng, st, args[0]), num(eng, st, args[1])
        if a is not None and b is not None:
            return eng.binop(op, a, b, a.ty, st)
        x, y = eng.deref(st, args[0]), eng.deref(st, args[1])
        if isinstance(x, bool) or isinstance(y, bool):
            return eng.binop(op, x, y, ("bool",), st)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.f) == len(y.f):
            return conj_eq(eng, st, list(zip(x.f, y.f)), op == "Eq")
        if isinstance(x, Arr) and isinstance(y, Arr):
            if len(x.f) != len(y.f):
                return [(op != "Eq", st)]
            return conj_eq(eng, st, list(zip(x.f, y.f)), op == "Eq")
        if isinstance(x, Adt) and isinstance(y, Adt) and x.path == y.path and not eng.prog.adts.get(x.path, {}).get("local") and x.path == ORD:
            return [((x.v == y.v) == (op == "Eq"), st)]
        if strip_ty(eng.typeof(x)) == ORD and strip_ty(eng.typeof(y)) == ORD:
            out = []
            for i, s in eng.variants(st, x):
                for j, s2 in eng.variants(s, y):
                    out.append(((i == j) == (op == "Eq"), s2))
            return out
        # dispatch to the value's own eq
        path = x.path if isinstance(x, Adt) else (x.ty[1] if isinstance(x, Opq) and x.ty and x.ty[0] == "adt" else None)
        if path:
            for s, ta, k in eng.prog.impl_index.get(("core::cmp::PartialEq", "eq"), []):
                if s[0] == "adt" and s[1] == path:
                    ra, rb = as_ref(eng, st, args[0]), as_ref(eng, st, args[1])
                    outs = eng.exec_fn(k, [ra, rb], st, (fr.depth if fr else 0) + 1)
                    if op == "Eq":
                        return outs
                    res = []
                    for o in outs:
                        if o.kind == "ret":
                            for bv, s2 in eng.ask_bool(o.st, o.val):
                                res.append((not bv, s2))
                        else:
                            res.append(o)
                    return res
        if eng.key(st, x) == eng.key(st, y):
            return [(op == "Eq", st)]
        t = f"eq({eng.key(st, x)},{eng.key(st, y)})"
        return [(bv == (op == "Eq"), s) for bv, s in eng.ask_bool(st, Opq(t, ("bool",)))]

    def strip_ty(t):
        while t is not None and t[0] == "ref":
            t = t[1]
        return t[1] if t is not None and t[0] == "adt" else None

    def as_ref(eng, st, v):
        """innermost reference to a non-reference value"""
        while isinstance(v, Ref):
            w = eng.load(st, v.c, v.pr)
            if isinstance(w, Ref):
                v = w
            else:
                return v
        return Ref(eng.new_cell(st, v))

    def conj_eq(eng, st, pairs, pos):
        states, out = [st], []
        for a, b in pairs:
            nxt = []
            for s in states:
                fake = {"name": "eq", "p": "core::cmp::PartialEq::eq"}
                for o in eng.norm(peq(eng, s, [a, b], fake, None, None, None)):
                    if o.kind != "ret":
                        out.append(o)
                        continue
                    for bv, s2 in eng.ask_bool(o.st, o.val):
                        if bv:
                            nxt.append(s2)
                        else:
                            out.append((not pos, s2))
            states = nxt
        return out + [(pos, s) for s in states]

    def lex_cmp(eng, st, pairs, wrap, depth):
        states, out = [st], []
        for a, b in pairs:
            nxt = []
            for s in states:
                for v, s2 in cmp_vals(eng, s, a, b, depth):
                    if v.v == 1:
                        nxt.append(s2)
                    else:
                        out.append((v, s2))
            states = nxt
        return out + [(EQUAL(), s) for s in states]

    def cmp_vals(eng, st, a, b, depth=0):
        x, y = num(eng, st, a), num(eng, st, b)
        if x is not None and y is not None:
            x, y = eng.exact(x), eng.exact(y)
            return [(ordv(s), s2) for s, s2 in eng.signs(st, x.p - y.p)]
        u, v = eng.deref(st, a), eng.deref(st, b)
        if isinstance(u, bool) and isinstance(v, bool):
            return [(ordv(NEG if u < v else POS if u > v else ZER), st)]
        if isinstance(u, Tup) and isinstance(v, Tup) or isinstance(u, Arr) and isinstance(v, Arr):
            return lex_cmp(eng, st, list(zip(u.f, v.f)), None, depth)
        path = u.path if isinstance(u, Adt) else (u.ty[1] if isinstance(u, Opq) and u.ty and u.ty[0] == "adt" else None)
        if path:
            for tr, m in (("core::cmp::Ord", "cmp"),):
                for s, ta, k in eng.prog.impl_index.get((tr, m), []):
                    if s[0] == "adt" and s[1] == path:
                        res = []
                        for o in eng.exec_fn(k, [as_ref(eng, st, a), as_ref(eng, st, b)], st, depth + 1):
                            if o.kind == "ret":
                                for i, s2 in eng.variants(o.st, eng.deref(o.st, o.val)):
                                    res.append((Adt(ORD, i, (), ("adt", ORD, ())), s2))
                        return res
        if isinstance(u, Adt) and isinstance(v, Adt) and u.path == v.path and not u.f and not v.f:
            return [(ordv(NEG if u.v < v.v else POS if u.v > v.v else ZER), st)]
        ku, kv = eng.key(st, u), eng.key(st, v)
        if ku == kv:
            return [(EQUAL(), st)]
        lo, hi = sorted((ku, kv))
        d = Poly.atom(f"ord({lo},{hi})")
        if ku != lo:
            d = -d
        return [(ordv(s), s2) for s, s2 in eng.signs(st, d)]
    E.cmp_vals = cmp_vals

    @model("core::cmp::Ord::cmp", "core::f64::<impl f64>::total_cmp", "core::f32::<impl f32>::total_cmp", "rgeometry::TotalOrd::total_cmp")
    def ocmp(eng, st, args, c, dty, fr, sp):
        a, b = num(eng, st, args[0]), num(eng, st, args[1])
        if a is None or b is None:
            x = eng.deref(st, args[0])
            if isinstance(x, Adt) and eng.prog.adts.get(x.path, {}).get("local") and c["name"] != "cmp":
                return None
            if isinstance(x, (Tup, Arr)) and c["name"] == "cmp":
                return cmp_vals(eng, st, args[0], args[1], fr.depth if fr else 0)
            if isinstance(x, Tup):
                return None
            if isinstance(x, Adt) and c["name"] != "cmp":
                return None
            return cmp_vals(eng, st, args[0], args[1], fr.depth if fr else 0)
        return cmp_vals(eng, st, a, b)

    @model("core::cmp::PartialOrd::partial_cmp")
    def pcmp(eng, st, args, c, dty, fr, sp):
        x = eng.deref(st, args[0])
        if num(eng, st, args[0]) is None and not isinstance(x, (Tup, Arr)):
            if not (isinstance(x, Adt) and not x.f):
                return None
        return [(some(v, ("adt", ORD, ())), s) for v, s in cmp_vals(eng, st, args[0], args[1], fr.depth if fr else 0)]

    @model("core::cmp::Ord::max", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::min")
    def omax(eng, st, args, c, dty, fr, sp):
        a, b = num(eng, st, args[0]), num(eng, st, args[1])
        if a is None or b is None:
            if isinstance(eng.deref(st, args[0]), (Adt, Tup, Opq)):
                out = []
                for v, s in cmp_vals(eng, st, args[0], args[1], fr.depth if fr else 0):
                    if c["name"] == "max":
                        out.append((args[0] if v.v == 2 else args[1], s))
                    else:
                        out.append((args[1] if v.v == 2 else args[0], s))
                return out
            return None
        out = []
        for t, s in eng.test(st, a.p - b.p, POS):
            if c["name"] == "max":
                out.append((args[0] if t else args[1], s))
            else:
                out.append((args[1] if t else args[0], s))
        return out

    @model("num_traits::float::Float::min", "num_traits::float::Float::max")
    def fminmax(eng, st, args, c, dty, fr, sp):
        return omax(eng, st, args, c, dty, fr, sp)

    # generic predicates of the scalar trait: their *contract* (what C01/C02 decide per type)
    def v2(eng, st, a):
        a = eng.deref(st, a)
        xs = [num(eng, st, eng.seq_read(st, a, Poly.const(i))) for i in (0, 1)]
        return None if None in xs else [x.p for x in xs]

    def det(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    E.det = staticmethod(det)

    @model("rgeometry::PolygonScalar::cmp_slope")
    def slope(eng, st, args, c, dty, fr, sp):
        p, q, r = [v2(eng, st, a) for a in args]
        if None in (p, q, r):
            return None
        return [(ordv(s), s2) for s, s2 in eng.signs(st, det(p, q, r))]

    @model("rgeometry::PolygonScalar::cmp_vector_slope")
    def vslope(eng, st, args, c, dty, fr, sp):
        v, p, q = [v2(eng, st, a) for a in args]
        return [(ordv(s), s2) for s, s2 in eng.signs(st, v[0] * (q[1] - p[1]) - v[1] * (q[0] - p[0]))]

    @model("rgeometry::PolygonScalar::cmp_perp_vector_slope")
    def pvslope(eng, st, args, c, dty, fr, sp):
        v, p, q = [v2(eng, st, a) for a in args]
        return [(ordv(s), s2) for s, s2 in eng.signs(st, -(v[1] * (q[1] - p[1])) - v[0] * (q[0] - p[0]))]

    @model("rgeometry::PolygonScalar::cmp_dist")
    def cdist(eng, st, args, c, dty, fr, sp):
        p, q, r = [v2(eng, st, a) for a in args]

        def d2(a, b):
            return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
        return [(ordv(s), s2) for s, s2 in eng.signs(st, d2(p, q) - d2(p, r))]

    @model("rgeometry::PolygonScalar::from_constant")
    def fconst(eng, st, args, c, dty, fr, sp):
        a = num(eng, st, args[0])
        return [(Num(a.p, dty), st)]

    @model("geometry_predicates::predicates::orient2d")
    def orient2d(eng, st, args, c, dty, fr, sp):
        p, q, r = [v2(eng, st, a) for a in args]
        # documented contract: the sign of the result is the sign of the exact determinant
        return [(Num(det(p, q, r), ("float", "f64")), st)]

    @model("geometry_predicates::predicates::orient2d_fast")
    def orient2d_fast(eng, st, args, c, dty, fr, sp):
        # documented as approximate: a rounded evaluation of the determinant
        p, q, r = [v2(eng, st, a) for a in args]
        return [(Num(Poly.atom(f"fl(det,{det(p, q, r)})", ("float", "f64")) if hasattr(eng, "windows") else det(p, q, r), ("float", "f64")), st)]

    # ------------------------------------------------------------- scalars
    def ident(eng, st, args, c, dty, fr, sp):
        v = eng.deref(st, args[0])
        if isinstance(v, Adt) and v.path in TRANSPARENT:
            v = v.f[0]
        if isinstance(v, Num):
            return [(Num(v.p, dty if dty is not None and is_scalar_ty(dty) else v.ty, v.w), st)]
        return [(v, st)]
    for n in ("ordered_float::NotNan::<T>::into_inner", "ordered_float::OrderedFloat::<T>::into_inner",
              "num_traits::cast::ToPrimitive::to_f64_identity"):
        M[n] = ident

    @model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec")
    def clone(eng, st, args, c, dty, fr, sp):
        v = args[0]
        if isinstance(v, Ref):
            v = eng.load(st, v.c, v.pr)
        if isinstance(v, Arr) and c["name"] in ("to_vec", "to_owned") and dty is not None and dty[0] == "adt":
            v = Arr(v.f, "vec")
        if isinstance(v, Opq) and v.ty is not None and v.ty[0] in ("ref",) and dty is not None and dty[0] != "ref":
            v = eng.deref(st, v)
        if isinstance(v, Opq) and v.ty is not None and v.ty[0] == "slice" and dty is not None:
            v = Opq(v.t, dty)
        return [(v, st)]

    @model("core::convert::Into::into", "core::convert::From::from")
    def into(eng, st, args, c, dty, fr, sp):
        v = args[0]
        if c.get("r") in eng.prog.fns:
            return None
        x = eng.deref(st, v)
        if isinstance(x, Num) and (dty is None or is_scalar_ty(dty)):
            return [(Num(x.p, dty or x.ty, x.w), st)]
        if isinstance(x, (Arr, Opq)) and dty is not None and dty[0] == "adt" and dty[1] == VEC:
            if isinstance(x, Arr):
                return [(Arr(x.f, "vec"), st)]
        if isinstance(x, Num) and dty is not None and dty[0] == "adt" and dty[1].startswith("rug"):
            return [(Num(x.p, dty), st)]
        # local From impls reached through the blanket Into
        if dty is not None and dty[0] == "adt":
            tv = eng.typeof(v) if not isinstance(v, Ref) else ("ref", eng.typeof(x), v.m)
            cands = []
            for s, ta, k in eng.prog.impl_index.get(("core::convert::From", "from"), []):
                if s[0] == "adt" and s[1] == dty[1] and len(ta) > 1 and type_match(ta[1], tv) and type_match(s, dty):
                    cands.append(k)
            if len(cands) == 1:
                return eng.exec_fn(cands[0], args, st, (fr.depth if fr else 0) + 1)
        tv = eng.typeof(x)
        if tv is not None and dty is not None and tv == dty:
            return [(v, st)]
        if dty is not None and dty[0] == "param":
            return [(v, st)]
        return None

    def type_match(pat, t):
        if pat is None or t is None:
            return True
        if pat[0] == "param" or t[0] == "param":
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] in ("ref", "slice"):
            return type_match(pat[1], t[1])
        if pat[0] == "array":
            return type_match(pat[1], t[1])
        if pat[0] == "adt":
            return pat[1] == t[1] and all(type_match(a, b) for a, b in zip(pat[2], t[2]) if isinstance(a, tuple) and isinstance(b, tuple) and a[0] != "const" and b[0] != "const")
        if pat[0] == "tuple":
            return len(pat[1]) == len(t[1]) and all(type_match(a, b) for a, b in zip(pat[1], t[1]))
        return pat == t
    E.type_match = staticmethod(type_match)

    @model("num_traits::identities::One::one")
    def one(eng, st, args, c, dty, fr, sp):
        return [(Num(ONE, dty), st)]

    @model("num_traits::identities::Zero::zero")
    def zero(eng, st, args, c, dty, fr, sp):
        if dty is not None and not is_scalar_ty(dty):
            return None
        return [(Num(ZERO, dty), st)]

    @model("core::default::Default::default")
    def default(eng, st, args, c, dty, fr, sp):
        if dty is not None and dty[0] in ("int", "float"):
            return [(Num(ZERO, dty), st)]
        if dty is not None and dty[0] == "bool":
            return [(False, st)]
        if dty is not None and dty[0] == "adt" and dty[1] == OPTION:
            return [(none(dty[2][0]), st)]
        if dty is not None and dty[0] == "adt" and dty[1] in (VEC, DEQ):
            return [(Arr((), "vec" if dty[1] == VEC else "deque"), st)]
        return None

    @model("num_traits::identities::Zero::is_zero")
    def is_zero(eng, st, args, c, dty, fr, sp):
        a = num(eng, st, args[0])
        return None if a is None else eng.test(st, a.p, ZER)

    for nm, mask in (("is_positive", POS), ("is_negative", NEG)):
        def mkp(mask):
            def f(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                return None if a is None else eng.test(st, a.p, mask)
            return f
        M[f"num_traits::sign::Signed::{nm}"] = mkp(mask)
        for t in INT_BITS:
            M[f"core::num::<impl {t}>::{nm}"] = mkp(mask)

    for n in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64"):
        def mkf(n):
            def f(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                if a is None:
                    return None
                t = dty[2][0] if dty is not None and dty[0] == "adt" and dty[2] else None
                if t is not None and t[0] in ("int", "float") and not a.p.is_const():
                    return None
                return [(some(Num(a.p, t or a.ty), t), st)]
            return f
        M[f"num_traits::cast::FromPrimitive::from_{n}"] = mkf(n)

    @model("num_rational::Ratio::<num_bigint::bigint::BigInt>::from_float")
    def from_float(eng, st, args, c, dty, fr, sp):
        a = num(eng, st, args[0])
        return [(some(Num(a.p, dty[2][0]), dty[2][0]), st)]

    @model("rug::Integer::square", "rug::integer::big::Integer::square", "rug::Integer::square_ref", "rug::integer::big::Integer::square_ref")
    def square(eng, st, args, c, dty, fr, sp):
        a = num(eng, st, args[0])
        return [(Num(a.p * a.p, a.ty), st)]

    @model("num_traits::float::Float::recip", "core::f64::<impl f64>::recip", "std::f64::<impl f64>::recip")
    def recip(eng, st, args, c, dty, fr, sp):
        a = num(eng, st, args[0])
        return [(Num(inverse(a.p), a.ty), st)]

    @model("num_traits::cast::ToPrimitive::to_f64")
    def to_f64(eng, st, args, c, dty, fr, sp):
        a = num(eng, st, args[0])
        return [(some(Num(Poly.atom(f"to_f64({a.p})", ("float", "f64")), ("float", "f64")), ("float", "f64")), st)]

    def to_prim(t):
        ty = ("int", t, t[0] == "i")

        def f(eng, st, args, c, dty, fr, sp):
            a = num(eng, st, args[0])
            whole = a.ty is not None and (a.ty[0] == "int" or a.ty[0] == "adt" and a.ty[1].split("::")[-1] in ("BigInt", "BigUint", "Integer"))
            if not hasattr(eng, "windows") or not whole:
                return None
            lo, hi = int_range(ty)
            out = []
            for t1, s1 in eng.test(st, a.p - Poly.const(lo), POS | ZER):
                for t2, s2 in (eng.test(s1, a.p - Poly.const(hi), NEG | ZER) if t1 else [(False, s1)]):
                    out.append((some(Num(a.p, ty), ty) if t2 else none(ty), s2))
            return out
        return f
    for t in INT_BITS:
        for pre in ("num_traits::cast::ToPrimitive::to_", "rug::Integer::to_", "rug::integer::big::Integer::to_"):
            M[pre + t] = to_prim(t)

    @model("num_traits::bounds::Bounded::max_value")
    def maxv(eng, st, args, c, dty, fr, sp):
        return [(Num(Poly.atom("MAX", dty), dty), st)]

    @model("core::intrinsics::discriminant_value")
    def dv(eng, st, args, c, dty, fr, sp):
        v = eng.deref(st, args[0])
        return [(Num(Poly.const(eng.discr(v, i)), dty), x) for i, x in eng.variants(st, v)]

    @model("core::intrinsics::three_way_compare")
    def twc(eng, st, args, c, dty, fr, sp):
        return cmp_vals(eng, st, args[0], args[1])

    for t in INT_BITS:
        P = f"core::num::<impl {t}>::"

        def mki(t):
            ty = ("int", t, t[0] == "i")
            bits = INT_BITS[t]

            def wsub(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                return eng.wrapping(a.p - b.p, ty, st)

            def wadd(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                return eng.wrapping(a.p + b.p, ty, st)

            def wmul(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                if hasattr(eng, "op_poly"):
                    p, iv, st = eng.op_poly("Mul", a, b, st)
                    return eng.wrapping(p, ty, st, iv)
                return eng.wrapping(a.p * b.p, ty, st)

            def wneg(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                return eng.wrapping(-a.p, ty, st)

            def uabs(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                u = ("int", t.replace("i", "u", 1), False)
                return [(eng.retag(Num(-a.p if neg else a.p, u), s), s) for neg, s in eng.test(st, a.p, NEG)]

            def abs_(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                out = []
                for neg, s in eng.test(st, a.p, NEG):
                    if neg:
                        out += [(v, s2) for v, s2 in eng.arith("Sub", Num(ZERO, ty), a, ty, s)]
                    else:
                        out.append((a, s))
                return out

            def wabs(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                out = []
                for neg, s in eng.test(st, a.p, NEG):
                    out += eng.wrapping(-a.p, ty, s) if neg else [(a, s)]
                return out

            def wcopysign(name, mask):
                def f(eng, st, args, c, dty, fr, sp):
                    return [(x, s) for x, s in eng.test(st, num(eng, st, args[0]).p, mask)]
                return f

            def saturating(op):
                def f(eng, st, args, c, dty, fr, sp):
                    if not hasattr(eng, "windows"):
                        return None
                    a, b = num(eng, st, args[0]), num(eng, st, args[1])
                    lo, hi = int_range(ty)
                    exact = a.p + b.p if op == "Add" else a.p - b.p if op == "Sub" else a.p * b.p
                    out = []
                    for v, s in eng.overflowing(op, a, b, ty, st):
                        if v.f[1] is False:
                            out.append((v.f[0], s))
                            continue
                        for up, s2 in eng.test(s, exact - Poly.const(hi), POS):
                            out.append((Num(Poly.const(hi if up else lo), ty), s2))
                    return out
                return f

            def cneg(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                return checked("Sub")(eng, st, [Num(ZERO, ty), a], c, dty, fr, sp)

            def adiff(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                u = ("int", t.replace("i", "u", 1), False) if t[0] == "i" else ty
                return [(eng.retag(Num(b.p - a.p if neg else a.p - b.p, u), s), s) for neg, s in eng.test(st, a.p - b.p, NEG)]

            def oadd(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                return eng.overflowing("Add", a, b, ty, st)

            def osub(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                return eng.overflowing("Sub", a, b, ty, st)

            def omul(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                return eng.overflowing("Mul", a, b, ty, st)

            def ssub(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                if ty[2]:
                    return saturating("Sub")(eng, st, args, c, dty, fr, sp)
                return [(Num(ZERO if neg else a.p - b.p, ty), s) for neg, s in eng.test(st, a.p - b.p, NEG)]

            def checked(op):
                def f(eng, st, args, c, dty, fr, sp):
                    a, b = num(eng, st, args[0]), num(eng, st, args[1])
                    out = []
                    for v, s in eng.overflowing(op, a, b, ty, st):
                        out.append((none(ty) if v.f[1] else some(v.f[0], ty), s))
                    return out
                return f

            def signum(eng, st, args, c, dty, fr, sp):
                a = num(eng, st, args[0])
                return [(Num(Poly.const({NEG: -1, ZER: 0, POS: 1}[sg]), ty), s) for sg, s in eng.signs(st, a.p)]

            def pow_(eng, st, args, c, dty, fr, sp):
                a, b = num(eng, st, args[0]), num(eng, st, args[1])
                if not b.p.is_const():
                    return None
                k = b.p.const_val()
                res = [(Num(ONE, ty), st)]
                for _ in range(k):
                    res = [y for v, s in res for y in eng.arith("Mul", v, a, ty, s)]
                return res
            return {"wrapping_sub": wsub, "wrapping_add": wadd, "wrapping_mul": wmul, "wrapping_neg": wneg, "unsigned_abs": uabs, "abs": abs_, "abs_diff": adiff,
                    "overflowing_add": oadd, "overflowing_sub": osub, "overflowing_mul": omul, "saturating_sub": ssub,
                    "wrapping_abs": wabs, "is_negative": wcopysign("is_negative", NEG), "is_positive": wcopysign("is_positive", POS), "checked_neg": cneg,
                    "saturating_add": saturating("Add"), "saturating_mul": saturating("Mul"),
                    "checked_add": checked("Add"), "checked_sub": checked("Sub"), "checked_mul": checked("Mul"), "signum": signum, "pow": pow_}
        for n, f in mki(t).items():
            M[P + n] = f

    # ------------------------------------------------------------- sequences
    def seqref(eng, st, v):
        """(location Ref, contents) of the sequence behind v, or (None, None)"""
        n = 0
        while n < 20:
            n += 1
            if isinstance(v, Ref):
                w = eng.load(st, v.c, v.pr)
                if isinstance(w, Ref):
                    v = w
                    continue
                if isinstance(w, Opq) and w.ty is not None and w.ty[0] in ("ref", "ptr"):
                    v = w
                    continue
                if isinstance(w, Opq) and w.ty is not None and w.ty[0] == "adt" and w.ty[1] == "alloc::boxed::Box":
                    k = ("d", w.t)
                    if k not in st.mem:
                        st.mem[k] = eng.mk(w.t + ".*", w.ty[2][0])
                    v = Ref(k)
                    continue
                return v, w
            if isinstance(v, Opq) and v.ty is not None and v.ty[0] in ("ref", "ptr"):
                k = ("d", v.t)
                if k not in st.mem:
                    st.mem[k] = eng.mk(v.t, v.ty[1])
                v = Ref(k)
                continue
            break
        if isinstance(v, (Arr, Opq)):
            return Ref(eng.new_cell(st, v)), v
        return None, None
    E.seqref = staticmethod(seqref)

    def is_seq(v):
        if isinstance(v, Arr):
            return True
        if isinstance(v, Opq):
            t = v.ty
            while t is not None and t[0] == "ref":
                t = t[1]
            return t is None or t[0] in ("slice", "array") or (t[0] == "adt" and t[1] in (VEC, DEQ, "smallvec::SmallVec"))
        return False
    E.is_seq = staticmethod(is_seq)

    @model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
    def index(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        if r is None or not is_seq(v):
            return None
        i = eng.deref(st, args[1])
        st = st.copy()
        if isinstance(i, Num):
            ln = eng.seq_len(st, v)
            m = eng.possible(st, i.p - ln)
            if m & NEG == 0:
                return [Outcome("panic", "bounds", st, (fr.key if fr else None, sp))]
            eng.add_sign(st, i.p - ln, NEG)
            eng.add_sign(st, i.p, POS | ZER)
            return [(Ref(r.c, r.pr + (("i", i.p),), c["name"] == "index_mut"), st)]
        lo, hi = rng(eng, st, i, v)
        if lo is None:
            return None
        return [(Ref(r.c, r.pr + (("view", lo, hi - lo),), c["name"] == "index_mut"), st)]

    def rng(eng, st, i, v):
        if isinstance(i, Adt):
            n = i.path.split("::")[-1]
            if n == "Range":
                return eng.deref(st, i.f[0]).p, eng.deref(st, i.f[1]).p
            if n == "RangeFrom":
                return eng.deref(st, i.f[0]).p, eng.seq_len(st, v)
            if n == "RangeTo":
                return ZERO, eng.deref(st, i.f[0]).p
            if n == "RangeFull":
                return ZERO, eng.seq_len(st, v)
            if n in ("RangeInclusive",):
                return eng.deref(st, i.f[0]).p, eng.deref(st, i.f[1]).p + ONE
            if n in ("RangeToInclusive",):
                return ZERO, eng.deref(st, i.f[0]).p + ONE
        return None, None

    @model("core::ops::range::RangeInclusive::<Idx>::new")
    def rinew(eng, st, args, c, dty, fr, sp):
        return [(Adt("core::ops::range::RangeInclusive", 0, [args[0], args[1], False], dty), st)]

    for n, i in (("start", 0), ("end", 1)):
        def mkri(i):
            def f(eng, st, args, c, dty, fr, sp):
                a = args[0]
                while isinstance(a, Ref) and isinstance(eng.load(st, a.c, a.pr), Ref):
                    a = eng.load(st, a.c, a.pr)
                if isinstance(a, Ref):
                    return [(Ref(a.c, a.pr + ((".", i),)), st)]
                return None
            return f
        M[f"core::ops::range::RangeInclusive::<Idx>::{n}"] = mkri(i)

    @model("core::ops::range::RangeInclusive::<Idx>::into_inner")
    def riinto(eng, st, args, c, dty, fr, sp):
        v = args[0]
        if isinstance(v, Adt):
            return [(Tup([v.f[0], v.f[1]]), st)]
        return [(Tup([eng.project(st, v, (".", 0)), eng.project(st, v, (".", 1))]), st)]

    @model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
           "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice", "alloc::vec::Vec::<T, A>::into_boxed_slice")
    def deref(eng, st, args, c, dty, fr, sp):
        v = args[0]
        r, x = seqref(eng, st, v)
        if r is not None and is_seq(x):
            return [(Ref(r.c, r.pr, c["name"] in ("deref_mut", "as_mut_slice")), st)]
        x = eng.deref(st, v)
        if isinstance(x, Num):
            return [(v, st)]
        return None

    @model("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "alloc::collections::vec_deque::VecDeque::<T, A>::len")
    def ln(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        return [(usz(eng.seq_len(st, v)), st)]

    @model("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "alloc::collections::vec_deque::VecDeque::<T, A>::is_empty")
    def isempty(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        return eng.test(st, eng.seq_len(st, v), ZER)

    def seq_ty(t):
        return t is not None and t[0] == "adt" and t[2] and isinstance(t[2][0], tuple)

    @model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity")
    def vnew(eng, st, args, c, dty, fr, sp):
        return [(Arr((), "vec", dty if seq_ty(dty) else None), st)]

    @model("alloc::collections::vec_deque::VecDeque::<T>::new", "alloc::collections::vec_deque::VecDeque::<T>::with_capacity")
    def dnew(eng, st, args, c, dty, fr, sp):
        return [(Arr((), "deque", dty if seq_ty(dty) else None), st)]

    def put(eng, st, r, v):
        eng.store(st, r.c, r.pr, v)

    def seq_push(eng, st, v, x):
        if isinstance(v, Arr):
            return Arr(v.f + (x,), v.kind, v.ty)
        t = f"push({v.t},{eng.key(st, x)})"
        eng.seqinfo[t] = ("push", v, x)
        return Opq(t, v.ty)
    E.seq_push = staticmethod(seq_push)

    @model("alloc::vec::Vec::<T, A>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back")
    def push(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        r, v = seqref(eng, st, args[0])
        x = args[1]
        if isinstance(v, Opq) and v.ty is not None and v.ty[0] == "adt" and v.ty[2] and v.ty[2][0] is None:
            v = Opq(v.t, (v.ty[0], v.ty[1], (eng.typeof(x),) + tuple(v.ty[2][1:])))
        st.event(("push", v, x, (fr.key if fr else None, sp)))
        put(eng, st, r, seq_push(eng, st, v, x))
        return [(UNIT, st)]

    @model("alloc::collections::vec_deque::VecDeque::<T, A>::push_front", "alloc::vec::Vec::<T, A>::insert")
    def pushf(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        r, v = seqref(eng, st, args[0])
        x = args[-1]
        if isinstance(v, Opq) and v.ty is not None and v.ty[0] == "adt" and v.ty[2] and v.ty[2][0] is None:
            v = Opq(v.t, (v.ty[0], v.ty[1], (eng.typeof(x),) + tuple(v.ty[2][1:])))
        st.event(("push", v, x, (fr.key if fr else None, sp)))
        if isinstance(v, Arr) and c["name"] == "push_front":
            put(eng, st, r, Arr((x,) + v.f, v.kind, v.ty))
            return [(UNIT, st)]
        i = ZERO if c["name"] == "push_front" else num(eng, st, args[1]).p
        n = eng.seq_len(st, v) + ONE
        t = f"ins({eng.key(st, v)},{i},{eng.key(st, x)})"
        eng.seqinfo[t] = ("ins", v, i, x, n)
        put(eng, st, r, Opq(t, eng.typeof(v)))
        return [(UNIT, st)]

    def sub(eng, st, v, off, n):
        if isinstance(v, Arr) and off.is_const() and n.is_const():
            o = off.const_val()
            return Arr(v.f[o:o + n.const_val()], v.kind)
        if isinstance(v, Opq) and off == ZERO:
            i = eng.seqinfo.get(v.t)
            if i and i[0] == "push" and n == eng.seq_len(st, i[1]):
                return i[1]
            if n == eng.seq_len(st, v):
                return v
        t = f"sub({eng.key(st, v)},{off},{n})"
        eng.seqinfo[t] = ("sub", v, off, n)
        return Opq(t, eng.typeof(v))

    @model("alloc::vec::Vec::<T, A>::pop", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_back", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_front")
    def pop(eng, st, args, c, dty, fr, sp):
        out = []
        r, v = seqref(eng, st, args[0])
        n = eng.seq_len(st, v)
        et = dty[2][0] if dty else None
        for z, s in eng.test(st, n, ZER):
            s = s.copy()
            if z:
                out.append((none(et), s))
                continue
            front = c["name"] == "pop_front"
            x = eng.seq_read(s, v, ZERO if front else n - ONE)
            s.event(("pop", v, x, (fr.key if fr else None, sp)))
            put(eng, s, r, sub(eng, s, v, ONE if front else ZERO, n - ONE))
            out.append((some(x, et), s))
        return out

    @model("alloc::vec::Vec::<T, A>::remove", "alloc::collections::vec_deque::VecDeque::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
    def remove(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        r, v = seqref(eng, st, args[0])
        i = num(eng, st, args[1]).p
        n = eng.seq_len(st, v)
        opt = dty is not None and dty[0] == "adt" and dty[1] == OPTION and c.get("rp", c["p"]).startswith("alloc::collections")
        out = []
        for ok, s in eng.test(st, i - n, NEG):
            s = s.copy()
            if not ok:
                out.append((none(dty[2][0]), s) if opt else Outcome("panic", "bounds", s, (fr.key if fr else None, sp)))
                continue
            x = eng.seq_read(s, v, i)
            s.event(("remove", v, i, (fr.key if fr else None, sp)))
            if c["name"] == "swap_remove":
                w = eng.seq_write(s, v, i, eng.seq_read(s, v, n - ONE)) if eng.possible(s, i - n + ONE) != ZER else v
                nv = sub(eng, s, w, ZERO, n - ONE)
            elif i == ZERO:
                nv = sub(eng, s, v, ONE, n - ONE)
            else:
                t = f"del({eng.key(s, v)},{i})"
                eng.seqinfo[t] = ("sized", v, n - ONE)
                nv = Opq(t, eng.typeof(v))
            put(eng, s, r, nv)
            out.append((some(x, dty[2][0]) if opt else x, s))
        return out

    @model("alloc::vec::Vec::<T, A>::truncate")
    def truncate(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        k = num(eng, st, args[1]).p
        n = eng.seq_len(st, v)
        out = []
        for less, s in eng.test(st, k - n, NEG):
            s = s.copy()
            if less:
                put(eng, s, r, sub(eng, s, v, ZERO, k))
            out.append((UNIT, s))
        return out

    @model("alloc::vec::Vec::<T, A>::clear")
    def clear(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        r, v = seqref(eng, st, args[0])
        put(eng, st, r, Arr((), "vec"))
        return [(UNIT, st)]

    @model("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::shrink_to_fit")
    def nop(eng, st, args, c, dty, fr, sp):
        return [(UNIT, st)]

    @model("alloc::vec::Vec::<T, A>::resize")
    def resize(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        k = num(eng, st, args[1]).p
        n = eng.seq_len(st, v)
        out = []
        for more, s in eng.test(st, k - n, POS):
            s = s.copy()
            if more:
                if n == ZERO:
                    nv = fill(eng, s, args[2], k)
                else:
                    t = f"grow({eng.key(s, v)},{k},{eng.key(s, args[2])})"
                    eng.seqinfo[t] = ("grow", v, n, k, args[2])
                    nv = Opq(t, eng.typeof(v))
            else:
                nv = sub(eng, s, v, ZERO, k)
            put(eng, s, r, nv)
            out.append((UNIT, s))
        return out

    def fill(eng, st, x, n):
        if n.is_const():
            return Arr([x] * n.const_val(), "vec")
        t = f"fill({eng.key(st, x)},{n})"
        eng.seqinfo[t] = ("fill", x, n)
        return Opq(t, ("adt", VEC, (eng.typeof(x),)))

    @model("alloc::vec::from_elem")
    def from_elem(eng, st, args, c, dty, fr, sp):
        return [(fill(eng, st, args[0], num(eng, st, args[1]).p), st)]

    @model("core::slice::<impl [T]>::swap")
    def swap(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        r, v = seqref(eng, st, args[0])
        i, j = num(eng, st, args[1]).p, num(eng, st, args[2]).p
        st.event(("swap", v, i, j, (fr.key if fr else None, sp)))
        if isinstance(v, Arr) and i.is_const() and j.is_const():
            f = list(v.f)
            a, b = i.const_val(), j.const_val()
            if not (0 <= a < len(f) and 0 <= b < len(f)):
                from engine import Outcome
                return [Outcome("panic", "bounds", st, (fr.key if fr else None, sp))]
            f[a], f[b] = f[b], f[a]
            put(eng, st, r, Arr(f, v.kind))
        else:
            t = f"swap({eng.key(st, v)},{i},{j})"
            eng.seqinfo[t] = ("swap", v, i, j)
            put(eng, st, r, Opq(t, eng.typeof(v)))
        return [(UNIT, st)]

    def mk_perm(kind):
        def f(eng, st, args, c, dty, fr, sp):
            st = st.copy()
            r, v = seqref(eng, st, args[0])
            if kind == "reverse" and isinstance(v, Arr):
                put(eng, st, r, Arr(v.f[::-1], v.kind))
                return [(UNIT, st)]
            extra = f",{eng.key(st, args[1])}" if len(args) > 1 else ""
            st.event(("perm", kind, v, args[1] if len(args) > 1 else None, (fr.key if fr else None, sp)))
            if isinstance(v, Arr) and len(v.f) <= 1:
                return [(UNIT, st)]
            if kind == "reverse":
                t = f"rev({eng.key(st, v)})"
                eng.seqinfo[t] = ("rev", v)
            else:
                t = f"{kind}({eng.key(st, v)}{extra})"
                eng.seqinfo[t] = ("perm", v)
            put(eng, st, r, Opq(t, eng.typeof(v)))
            return [(UNIT, st)]
        return f
    for n in ("sort", "sort_by", "sort_by_key", "sort_by_cached_key"):
        M[f"alloc::slice::<impl [T]>::{n}"] = mk_perm(n)
    for n in ("sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "rotate_left", "rotate_right"):
        M[f"core::slice::<impl [T]>::{n}"] = mk_perm(n)
    M["rand::seq::SliceRandom::shuffle"] = mk_perm("shuffle")

    @model("alloc::vec::Vec::<T, A>::dedup", "alloc::vec::Vec::<T, A>::dedup_by", "alloc::vec::Vec::<T, A>::dedup_by_key", "alloc::vec::Vec::<T, A>::retain", "alloc::vec::Vec::<T, A>::drain")
    def dedup(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        r, v = seqref(eng, st, args[0])
        t = f"{c['name']}({eng.key(st, v)}{',' + eng.key(st, args[1]) if len(args) > 1 else ''})"
        eng.seqinfo[t] = ("subset", v)
        st.event(("subset", c["name"], v, (fr.key if fr else None, sp), args[1] if len(args) > 1 else None))
        put(eng, st, r, Opq(t, eng.typeof(v)))
        if c["name"] == "drain":
            return None
        return [(UNIT, st)]

    @model("alloc::collections::vec_deque::VecDeque::<T, A>::make_contiguous")
    def contiguous(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        return [(Ref(r.c, r.pr, True), st)]

    def mk_firstlast(which, deq=False):
        def f(eng, st, args, c, dty, fr, sp):
            r, v = seqref(eng, st, args[0])
            n = eng.seq_len(st, v)
            et = dty[2][0] if dty else None
            out = []
            for z, s in eng.test(st, n, ZER):
                if z:
                    out.append((none(et), s))
                else:
                    i = ZERO if which == "first" else n - ONE
                    out.append((some(Ref(r.c, r.pr + (("i", i),), "mut" in c["name"]), et), s))
            return out
        return f
    M["core::slice::<impl [T]>::first"] = M["core::slice::<impl [T]>::first_mut"] = mk_firstlast("first")
    M["core::slice::<impl [T]>::last"] = M["core::slice::<impl [T]>::last_mut"] = mk_firstlast("last")
    M["alloc::collections::vec_deque::VecDeque::<T, A>::front"] = mk_firstlast("first")
    M["alloc::collections::vec_deque::VecDeque::<T, A>::back"] = mk_firstlast("last")

    @model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::get")
    def get(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        i = num(eng, st, args[1])
        if i is None:
            return None
        out = []
        et = dty[2][0] if dty else None
        for ok, s in eng.test(st, i.p - eng.seq_len(st, v), NEG):
            out.append((some(Ref(r.c, r.pr + (("i", i.p),), "mut" in c["name"]), et), s) if ok else (none(et), s))
        return out

    @model("core::slice::<impl [T]>::iter", "alloc::collections::vec_deque::VecDeque::<T, A>::iter")
    def it(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        r, v = seqref(eng, st, args[0])
        return [(Adt("prelude::SIter", 0, [Ref(r.c, r.pr), usz(ZERO), usz(eng.seq_len(st, v))]), st)]

    @model("core::slice::<impl [T]>::iter_mut")
    def itm(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        return [(Adt("prelude::MIter", 0, [Ref(r.c, r.pr, True), usz(ZERO), usz(eng.seq_len(st, v))]), st)]

    @model("core::slice::<impl [T]>::windows")
    def windows(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        return [(Adt("prelude::Windows", 0, [Ref(r.c, r.pr), args[1], usz(ZERO), usz(eng.seq_len(st, v))]), st)]

    @model("core::slice::<impl [T]>::contains")
    def contains(eng, st, args, c, dty, fr, sp):
        return pre(eng, "slice_contains", args, st, fr)

    @model("core::array::<impl [T; N]>::map")
    def amap(eng, st, args, c, dty, fr, sp):
        a = eng.deref(st, args[0])
        if not isinstance(a, Arr):
            return None
        return seq_calls(eng, st, args[1], [[x] for x in a.f], fr, sp, dty[1] if dty and dty[0] == "array" else None)

    # ------------------------------------------------------------- boxes / mem
    @model("alloc::boxed::Box::<T>::new_uninit")
    def bnew(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        t = eng.fresh("box")
        st.mem[("d", t)] = UNINIT
        return [(Opq(t, dty), st)]

    @model("alloc::boxed::box_assume_init_into_vec_unsafe")
    def bvec(eng, st, args, c, dty, fr, sp):
        v = args[0]
        x = st.mem.get(("d", v.t)) if isinstance(v, Opq) else None
        n = 0
        while x is not None and not isinstance(x, Arr) and isinstance(x, (Adt, Tup)) and n < 6:
            fs = [y for y in x.f if y is not UNINIT]
            if len(fs) != 1:
                break
            x = fs[0]
            n += 1
        if isinstance(x, Arr):
            return [(Arr(x.f, "vec"), st)]
        return None

    @model("core::mem::swap")
    def mswap(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        a, b = args
        x, y = eng.load(st, a.c, a.pr), eng.load(st, b.c, b.pr)
        eng.store(st, a.c, a.pr, y)
        eng.store(st, b.c, b.pr, x)
        return [(UNIT, st)]

    @model("core::mem::replace", "core::mem::take", "core::option::Option::<T>::take", "core::option::Option::<T>::replace")
    def mreplace(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        a = args[0]
        x = eng.load(st, a.c, a.pr)
        if len(args) > 1:
            nv = args[1] if c["p"].startswith("core::mem") else some(args[1])
        else:
            if dty is not None and dty[0] == "adt" and dty[1] == OPTION:
                nv = none(dty[2][0])
            elif dty is not None and dty[0] == "adt" and dty[1] == VEC:
                nv = Arr((), "vec")
            elif dty is not None and dty[0] == "int":
                nv = Num(ZERO, dty)
            elif dty is not None and dty[0] == "param":
                nv = Opq("default()", dty)
            else:
                return None
        eng.store(st, a.c, a.pr, nv)
        return [(x, st)]

    @model("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read")
    def pread(eng, st, args, c, dty, fr, sp):
        return [(eng.load(st, args[0].c, args[0].pr), st)]

    @model("core::mem::drop", "core::mem::forget")
    def mdrop(eng, st, args, c, dty, fr, sp):
        return [(UNIT, st)]

    # ------------------------------------------------------------- array_init
    def seq_calls(eng, st, f, argss, fr, sp, et, stop=None):
        """call f on each argument list in order; collect results into an array"""
        st = st.copy()
        if not isinstance(f, Ref):
            f = Ref(eng.new_cell(st, f), (), True)
        states = [((), st)]
        done = []
        for a in argss:
            nxt = []
            for acc, s in states:
                for o in eng.call_value(eng.deref(s, f), f, list(a), s, et, fr, sp):
                    if o.kind != "ret":
                        done.append(o)
                    elif stop is None:
                        nxt.append((acc + (o.val,), o.st))
                    else:
                        k, v, s2s = None, None, None
                        for ok, val, s2 in stop(eng, o.st, o.val):
                            if ok:
                                nxt.append((acc + (val,), s2))
                            else:
                                done.append((val, s2))
            states = nxt
        return done, states

    @model("array_init::array_init")
    def ainit(eng, st, args, c, dty, fr, sp):
        n = eng.arrlen(dty[2]) if dty is not None and dty[0] == "array" else eng.N
        done, states = seq_calls(eng, st, args[0], [[usz(Poly.const(i))] for i in range(n)], fr, sp, dty[1] if dty else None)
        return done + [(Arr(acc), s) for acc, s in states]

    @model("core::array::from_fn")
    def afromfn(eng, st, args, c, dty, fr, sp):
        return ainit(eng, st, args, c, dty, fr, sp)

    def amap2(eng, st, args, c, dty, fr, sp):
        a = eng.deref(st, args[0])
        if not isinstance(a, Arr):
            return None
        done, states = seq_calls(eng, st, args[1], [[x] for x in a.f], fr, sp, dty[1] if dty and dty[0] == "array" else None)
        return done + [(Arr(acc), s) for acc, s in states]
    for k in ("core::array::<impl [T; N]>::map",):
        M[k] = amap2

    @model("array_init::try_array_init")
    def tainit(eng, st, args, c, dty, fr, sp):
        def stop(eng, s, v):
            out = []
            for i, s2 in eng.variants(s, v):
                x = eng.project(s2, eng.project(s2, v, ("v", i)), (".", 0))
                if i == 0:
                    out.append((True, x, s2))
                else:
                    out.append((False, Adt(RESULT, 1, (x,), dty), s2))
            return out
        n = eng.N
        if dty is not None and dty[0] == "adt" and dty[2] and dty[2][0] is not None and dty[2][0][0] == "array":
            n = eng.arrlen(dty[2][0][2])
        done, states = seq_calls(eng, st, args[0], [[usz(Poly.const(i))] for i in range(n)], fr, sp, None, stop)
        return done + [(Adt(RESULT, 0, (Arr(acc),), dty), s) for acc, s in states]

    # ------------------------------------------------------------- iterators
    def pre(eng, name, args, st, fr):
        k = eng.prelude_key(name)
        return eng.exec_fn(k, list(args), st, (fr.depth if fr else 0) + 1)

    def to_iter(eng, st, v, c, dty):
        """IntoIterator::into_iter on an abstract value"""
        r, x = (seqref(eng, st, v) if not isinstance(v, Adt) else (None, None))
        if isinstance(v, Ref) or (isinstance(v, Opq) and v.ty is not None and v.ty[0] == "ref"):
            if r is not None and is_seq(x):
                mut = False
                sty = c.get("self") or (c["a"][0] if c.get("a") else None)
                if sty is not None and sty[0] == "ref":
                    mut = sty[2]
                return Adt("prelude::MIter" if mut else "prelude::SIter", 0, [Ref(r.c, r.pr, mut), usz(ZERO), usz(eng.seq_len(st, x))])
            if r is not None and isinstance(x, Adt) and x.path == OPTION:
                return None
            return v
        if is_seq(v) and not (isinstance(v, Opq) and v.ty is None):
            return Adt("prelude::VIter", 0, [v, usz(ZERO), usz(eng.seq_len(st, v))])
        if isinstance(v, Adt):
            if v.path == OPTION:
                return Adt("prelude::OIter", 0, [v])
            if v.path == "core::ops::range::RangeInclusive":
                b = eng.deref(st, v.f[1])
                return Adt("prelude::RangeInc", 0, [v.f[0], Num(b.p + ONE, b.ty)])
            if v.path == "core::ops::range::RangeFrom":
                return Adt("prelude::RangeFrom", 0, [v.f[0]])
        return v

    @model("core::iter::traits::collect::IntoIterator::into_iter")
    def intoiter(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        x = to_iter(eng, st, args[0], c, dty)
        return None if x is None else [(x, st)]

    @model("core::option::Option::<T>::iter", "core::option::Option::<T>::into_iter")
    def optiter(eng, st, args, c, dty, fr, sp):
        v = eng.deref(st, args[0])
        if isinstance(v, Opq):
            out = []
            for i, s in eng.variants(st, v):
                o = none() if i == 0 else some(eng.project(s, eng.project(s, v, ("v", 1)), (".", 0)))
                out.append((Adt("prelude::OIter", 0, [o]), s))
            return out
        return [(Adt("prelude::OIter", 0, [v]), st)]

    @model("core::iter::sources::empty::empty")
    def empty(eng, st, args, c, dty, fr, sp):
        return [(Adt("prelude::Empty", 0, []), st)]

    @model("core::iter::sources::once::once")
    def once(eng, st, args, c, dty, fr, sp):
        return [(Adt("prelude::OIter", 0, [some(args[0])]), st)]

    @model("core::iter::sources::from_fn::from_fn")
    def from_fn(eng, st, args, c, dty, fr, sp):
        return [(Adt("prelude::FromFn", 0, [args[0]]), st)]

    @model("core::iter::sources::successors::successors")
    def succs(eng, st, args, c, dty, fr, sp):
        return [(Adt("prelude::Successors", 0, [args[0], args[1]]), st)]

    @model("core::iter::sources::repeat::repeat")
    def repeat(eng, st, args, c, dty, fr, sp):
        return [(Adt("prelude::Repeat", 0, [args[0]]), st)]

    def adaptor(name, build):
        def f(eng, st, args, c, dty, fr, sp):
            st = st.copy()
            a = list(args)
            return [(Adt("prelude::" + name, 0, build(eng, st, a, c)), st)]
        return f
    A = {
        "map": ("Map", lambda e, s, a, c: [a[0], a[1]]),
        "filter": ("Filter", lambda e, s, a, c: [a[0], a[1]]),
        "filter_map": ("FilterMap", lambda e, s, a, c: [a[0], a[1]]),
        "take_while": ("TakeWhile", lambda e, s, a, c: [a[0], a[1], False]),
        "skip_while": ("SkipWhile", lambda e, s, a, c: [a[0], a[1], False]),
        "inspect": ("Inspect", lambda e, s, a, c: [a[0], a[1]]),
        "copied": ("Copied", lambda e, s, a, c: [a[0]]),
        "cloned": ("Copied", lambda e, s, a, c: [a[0]]),
        "enumerate": ("Enumerate", lambda e, s, a, c: [a[0], usz(ZERO)]),
        "rev": ("Rev", lambda e, s, a, c: [a[0]]),
        "zip": ("Zip", lambda e, s, a, c: [a[0], to_iter(e, s, a[1], {"self": None}, None)]),
        "chain": ("Chain", lambda e, s, a, c: [a[0], to_iter(e, s, a[1], {"self": None}, None), True]),
        "skip": ("Skip", lambda e, s, a, c: [a[0], a[1]]),
        "take": ("Take", lambda e, s, a, c: [a[0], a[1]]),
        "step_by": ("StepBy", lambda e, s, a, c: [a[0], a[1], True]),
        "scan": ("Scan", lambda e, s, a, c: [a[0], a[1], a[2]]),
        "flat_map": ("FlatMap", lambda e, s, a, c: [a[0], a[1], none()]),
        "peekable": ("Peekable", lambda e, s, a, c: [a[0], none()]),
        "fuse": (None, None), "by_ref": (None, None),
    }
    for n, (ad, b) in A.items():
        if ad:
            M[f"{IT}::{n}"] = adaptor(ad, b)

    lazy_skip = M[f"{IT}::skip"]

    @model(f"{IT}::skip")
    def skip(eng, st, args, c, dty, fr, sp):
        """skipping a fixed number of elements takes them off the front"""
        k = eng.deref(st, args[1])
        if not (isinstance(k, Num) and k.p.is_const() and 0 <= k.p.const_val() <= 3):
            return lazy_skip(eng, st, args, c, dty, fr, sp)
        s0 = st.copy()
        cell = eng.new_cell(s0, args[0])
        cur = [s0]
        for _ in range(int(k.p.const_val())):
            nxt = []
            for s in cur:
                rs = M[f"{IT}::next"](eng, s, [Ref(cell)], {"self": None, "name": "next"}, None, fr, sp)
                for r in rs or ():
                    if isinstance(r, Outcome):
                        if r.kind != "ret":
                            return lazy_skip(eng, st, args, c, dty, fr, sp)
                        nxt.append(r.st)
                    else:
                        nxt.append(r[1])
                if not rs:
                    return lazy_skip(eng, st, args, c, dty, fr, sp)
            cur = nxt
        return [(eng.load(s, cell, ()), s) for s in cur]

    @model(f"{IT}::by_ref", f"{IT}::fuse")
    def byref(eng, st, args, c, dty, fr, sp):
        return [(args[0], st)]

    def consumer(name, nargs=None):
        def f(eng, st, args, c, dty, fr, sp):
            return pre(eng, name, args, st, fr)
        return f
    for n in ("all", "any", "find", "find_map", "position", "fold", "reduce", "for_each", "count", "last", "nth", "min_by", "max_by", "min", "max", "min_by_key", "max_by_key"):
        M[f"{IT}::{n}"] = consumer(n)

    @model(f"{IT}::sum")
    def isum(eng, st, args, c, dty, fr, sp):
        if dty is not None and dty[0] == "adt":
            from contracts import keys_for
            ks = keys_for(eng.prog, "core::iter::traits::accum::Sum", "sum", dty[1])
            if len(ks) == 1:
                return eng.exec_fn(ks[0], args, st, (fr.depth if fr else 0) + 1)
        return pre(eng, "sum", [args[0], Num(ZERO, dty)], st, fr)

    @model(f"{IT}::product")
    def iprod(eng, st, args, c, dty, fr, sp):
        return pre(eng, "product", [args[0], Num(ONE, dty)], st, fr)

    @model(f"{IT}::collect", "core::iter::traits::collect::FromIterator::from_iter")
    def collect(eng, st, args, c, dty, fr, sp):
        a0 = to_iter(eng, st, args[0], {"self": None}, None)
        if dty is not None and dty[0] == "adt":
            if dty[1] == VEC:
                return pre(eng, "collect_vec", [a0], st, fr)
            if dty[1] == RESULT:
                return pre(eng, "collect_result", [a0], st, fr)
            if dty[1] == OPTION:
                return pre(eng, "collect_option", [a0], st, fr)
        return None

    @model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::vec::Vec::<T, A>::append")
    def extend(eng, st, args, c, dty, fr, sp):
        r, v = seqref(eng, st, args[0])
        if r is None or not is_seq(v):
            return None
        st = st.copy()
        return pre(eng, "extend_vec", [args[0], to_iter(eng, st, args[1], {"self": None}, None)], st, fr)

    def mk_next(trait, meth, rfn):
        def nxt(eng, st, args, c, dty, fr, sp):
            r = args[0]
            while isinstance(r, Ref) and isinstance(eng.load(st, r.c, r.pr), Ref):
                r = eng.load(st, r.c, r.pr)
            v = eng.load(st, r.c, r.pr) if isinstance(r, Ref) else r
            if isinstance(v, Adt):
                if v.path == "core::ops::range::Range":
                    return pre(eng, rfn, [r], st, fr)
                if v.path == "core::ops::range::RangeInclusive":
                    st = st.copy()
                    eng.store(st, r.c, r.pr, to_iter(eng, st, v, c, dty))
                    v = eng.load(st, r.c, r.pr)
                for s, ta, k in eng.prog.impl_index.get((trait, meth), []):
                    if s[0] == "adt" and s[1] == v.path:
                        return eng.exec_fn(k, [r], st, (fr.depth if fr else 0) + 1)
            if isinstance(v, Opq):
                path = v.ty[1] if v.ty and v.ty[0] == "adt" else None
                if path:
                    for s, ta, k in eng.prog.impl_index.get((trait, meth), []):
                        if s[0] == "adt" and s[1] == path:
                            return eng.exec_fn(k, [r], st, (fr.depth if fr else 0) + 1)
                st = st.copy()
                if isinstance(r, Ref):
                    eng.store(st, r.c, r.pr, Opq(f"adv({v.t})", v.ty))
                t = f"next({v.t})"
                if dty is None:
                    dty = ("adt", OPTION, (None,))
                return [(Opq(t, dty), st)]
            return None
        return nxt
    M[f"{IT}::next"] = mk_next(IT, "next", "range_next")
    M[f"{DIT}::next_back"] = mk_next(DIT, "next_back", "range_next_back")

    @model("core::iter::traits::exact_size::ExactSizeIterator::len")
    def exlen(eng, st, args, c, dty, fr, sp):
        v = eng.deref(st, args[0])
        if isinstance(v, Adt) and v.path in ("prelude::SIter", "prelude::VIter", "prelude::MIter"):
            return [(usz(v.f[2].p - v.f[1].p), st)]
        return None

    # ------------------------------------------------------------- panics
    def mkpanic(n):
        def f(eng, st, args, c, dty, fr, sp):
            return [Outcome("panic", n, st, (fr.key if fr else None, sp))]
        return f
    for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::unimplemented_default_msg",
              "core::panicking::panic_display", "core::panicking::panic_nounwind", "core::panicking::panic_explicit", "core::panicking::unreachable_display",
              "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
              "core::panicking::panic_bounds_check", "core::panicking::panic_const::panic_const_div_by_zero", "core::panicking::panic_str_2015", "core::panicking::todo", "core::panicking::unimplemented"):
        M[n] = mkpanic(n.split("::")[-1])

    # ------------------------------------------------------------- randomness
    @model("rand::rng::Rng::gen_range")
    def gen_range(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        t = eng.fresh("rnd")
        v = eng.mk(t, dty)
        r = eng.deref(st, args[1])
        if isinstance(v, Num) and isinstance(r, Adt) and r.path.endswith("Range"):
            lo, hi = eng.deref(st, r.f[0]), eng.deref(st, r.f[1])
            eng.add_sign(st, v.p - lo.p, POS | ZER)
            eng.add_sign(st, hi.p - v.p, POS)
        st.event(("random", t))
        return [(v, st)]

    @model("rand::rng::Rng::gen")
    def gen(eng, st, args, c, dty, fr, sp):
        st = st.copy()
        t = eng.fresh("rnd")
        st.event(("random", t))
        return [(eng.mk(t, dty), st)]
