from polyg import *
from strict import Strict
from engine import Inconclusive, State, int_range
from poly import ATOM_TY
from spec import facts_str

LEVEL = "other"
EXPLANATION = ("Bit-level dataflow: every output bit of the pair hash and of its inverse is traced to the input bits it is made of; reversibility and order are read off "
               "that map. For every coordinate type the key and hash functions are evaluated once over an abstract box and point with exact machine-integer semantics; "
               "the two numbers handed to the pair hash have to depend on one coordinate each, grow with it, and fit 32 bits for every width of the box."
               " Loops in the hash are unrolled at their constant length; masks, shifts and roundings have interval models, so a lost high bit or a rounded coordinate shows as a constant or non-injective piece.")
ASSUMPTIONS = ["leading_zeros(x) is the number of zero bits above the highest set bit; float operations round monotonically; float to integer conversion saturates",
               "the point lies in the box the key was made for (C21 checks that ear clipping hashes over a box that covers the polygon)"]
Z = R + "algorithms::zhash::"
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
TOP = "?"


def where(ctx, key):
    return ctx.where(ctx.P.fns[key])


def width(ty):
    return BITS[ty[1]]


class Bits(Strict):
    """machine arithmetic that keeps the structure of shifts, masks, truncations and rounded operations"""

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.defs = {}
        self.unroll = 8
        for t in BITS:
            self.models[f"core::num::<impl {t}>::leading_zeros"] = self.lz
        for t in ("f32", "f64"):
            for m in ("std", "core"):
                self.models[f"{m}::{t}::<impl {t}>::abs"] = self.abs
                for r in ("round", "floor", "ceil", "trunc", "round_ties_even", "fract"):
                    self.models[f"{m}::{t}::<impl {t}>::{r}"] = self.whole(r)

    def named(self, op, args, ty):
        nm = f"{op}_{ty[1]}({';'.join(map(repr, args))})"
        self.defs[nm] = (op, args, ty)
        return Num(Poly.atom(nm, ty), ty)

    def single(self, p):
        """the defined operation p consists of"""
        if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == 1:
            return self.defs.get(p.t[0][0][0])
        return None

    def lz(self, eng, s, a, c, dty, fr, sp):
        v = eng.deref(s, a[0])
        if not isinstance(v, Num):
            raise Inconclusive("leading_zeros of an unknown value")
        w = width(v.ty)
        if v.p.is_const():
            return [(Num(Poly.const(w - (v.p.const_val() % (1 << w)).bit_length()), dty), s)]
        out = []
        for neg, s1 in self.test(s, v.p, NEG):
            if neg:
                out.append((Num(ZERO, dty), s1))
                continue
            n = self.named("lz", [v.p], v.ty)
            n = Num(Poly.atom(n.p.t[0][0][0], dty), dty)
            s1 = s1.copy()
            self.add_sign(s1, n.p, POS | ZER)
            self.add_sign(s1, n.p - Poly.const(w), NEG | ZER)
            low, high = self.bounds(s1, v.p)
            if low is not None:
                self.add_sign(s1, n.p - Poly.const(w - max(low, 0).bit_length()), NEG | ZER)
            if high is not None and high < 1 << w:
                self.add_sign(s1, n.p - Poly.const(w - high.bit_length()), POS | ZER)
            out.append((n, s1))
        return out

    def whole(self, r):
        def f(eng, s, a, c, dty, fr, sp):
            x = eng.deref(s, a[0])
            if not isinstance(x, Num):
                raise Inconclusive("rounding of an unknown value")
            v = self.named("f" + r, [x.p], x.ty)
            s = s.copy()
            if self.possible(s, x.p) & NEG == 0:
                self.add_sign(s, v.p, POS | ZER)
            return [(v, s)]
        return f

    def rounded(self, op, a, b, t, st):
        """a float operation: rounding keeps the sign of the exact result"""
        v = self.named(op, [a.p, b.p], t)
        st = st.copy()
        if op == "fSub":
            self.add_sign(st, v.p, self.possible(st, a.p - b.p))
        elif all(self.possible(st, x.p) & NEG == 0 for x in (a, b)):
            self.add_sign(st, v.p, POS | ZER)
        return v, st

    def bounds(self, st, p):
        """integer bounds of p, strict facts included"""
        lo, hi = self.lower(st, p), self.lower(st, -p)
        return None if lo is None else lo[0] + lo[1], None if hi is None else -(hi[0] + hi[1])

    def abs(self, eng, s, a, c, dty, fr, sp):
        v = eng.deref(s, a[0])
        return [(Num(-v.p if neg else v.p, v.ty), x) for neg, x in self.test(s, v.p, NEG)]

    def binop(self, op, a, b, ty, st):
        base = op.replace("Unchecked", "")
        if base in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            x, y = self.deref(st, a), self.deref(st, b)
            if isinstance(x, Num) and isinstance(y, Num) and x.ty and x.ty[0] == "int" and not (x.p.is_const() and y.p.is_const()):
                if base in ("Shl", "Shr") and y.p == ZERO:
                    return [(x, st)]
                v = self.named(base, [x.p, y.p], x.ty)
                st = st.copy()
                if not x.ty[2]:
                    self.add_sign(st, v.p, POS | ZER)
                return [(v, st)]
        return super().binop(op, a, b, ty, st)

    def int_cast(self, v, src, ty, st):
        d = self.single(v.p)
        if d or any(x in self.defs for x in v.p.atoms()):
            sty = v.ty or src
            if not sty[2] and width(sty) <= width(ty) - (1 if ty[2] else 0):
                return [(Num(v.p, ty), st)]
            return [(self.named("low", [v.p], ty), st)]
        return super().int_cast(v, src, ty, st)

    def wrapping(self, p, ty, st, iv=None):
        out = super().wrapping(p, ty, st, iv)
        return [(self.named("low", [p], ty) if repr(v.p).startswith("wrap_") else v, s) for v, s in out]

    def arith(self, op, a, b, ty, st, with_ov=False):
        t = ty if ty is not None else a.ty
        if t and t[0] == "float" and not (a.p.is_const() and b.p.is_const()):
            return [self.rounded("f" + op, a, b, t, st)]
        if t and t[0] == "int" and any(x in self.defs and self.defs[x][0] != "lz" for x in (*a.p.atoms(), *b.p.atoms())):
            x, y = self.prov(a.p, t), self.prov(b.p, t)
            if x is not None and y is not None and op == "Add" and TOP not in x + y and all(i == 0 or j == 0 for i, j in zip(x, y)):
                v = self.named("BitOr", [a.p, b.p], t)
                return [(Tup([v, False]) if with_ov else v, st)]
            if x is not None and y is not None and op == "Mul" and b.p.is_const() and b.p.const_val() > 0 and b.p.const_val() & (b.p.const_val() - 1) == 0:
                k = b.p.const_val().bit_length() - 1
                if all(z == 0 for z in x[len(x) - k:]):
                    v = self.named("Shl", [a.p, Poly.const(k)], t)
                    return [(Tup([v, False]) if with_ov else v, st)]
        return super().arith(op, a, b, ty, st, with_ov)

    def cast(self, fr, r, st):
        if r[1] == "FloatToInt":
            v = self.deref(st, self.operand(fr, r[2], st))
            if isinstance(v, Num):
                return [(self.named("toint", [v.p], r[3]), st)]
        return super().cast(fr, r, st)

    def divrem(self, op, a, b, ty, st):
        t = ty or a.ty
        if t and t[0] == "float" and op == "Div":
            return [self.rounded("fDiv", a, b, t, st)]
        return super().divrem(op, a, b, ty, st)

    # ---- provenance of bits: 0, 1, a set of input bits (their disjunction) or unknown
    def prov(self, p, ty, env=None):
        w = width(ty)
        if p.is_const():
            c = p.const_val() % (1 << w)
            return [c >> i & 1 for i in range(w)]
        d = self.single(p)
        if d is None:
            if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == 1:
                a = p.t[0][0][0]
                if env is not None and a in env:
                    v = env[a]
                    return (v + [0] * w)[:w]
                t = ATOM_TY.get(a)
                if t is None or t[0] != "int" or t[2]:
                    return None
                return ([frozenset([(a, i)]) for i in range(width(t))] + [0] * w)[:w]
            return None
        op, args, t = d
        if op == "low":
            src = self.src_ty(args[0])
            if src is None:
                return None
            v = self.prov(args[0], src, env)
            return None if v is None else (v + [0] * w)[:w]
        if op not in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            return None
        n = width(t)
        x = self.prov(args[0], t, env)
        if x is None:
            return None
        if op in ("Shl", "Shr"):
            if not args[1].is_const():
                return None
            k = args[1].const_val()
            if op == "Shl":
                v = ([0] * k + x)[:n]
            else:
                v = x[k:] + [0 if not t[2] or x[-1] == 0 else TOP] * min(k, n)
                v = v[:n]
        else:
            y = self.prov(args[1], t, env)
            if y is None:
                return None
            v = [self.bit(op, i, j) for i, j in zip(x, y)]
        return (v + [0] * w)[:w]

    def src_ty(self, p):
        d = self.single(p)
        if d:
            return d[2]
        ts = {ATOM_TY.get(a) for a in p.atoms()}
        return ts.pop() if len(ts) == 1 else None

    @staticmethod
    def bit(op, i, j):
        if op == "BitAnd":
            if i == 0 or j == 0:
                return 0
            if i == 1 or i == j:
                return j
            return i if j == 1 else TOP
        if op == "BitOr":
            if i == 1 or j == 1:
                return 1
            if i == 0 or i == j:
                return j
            if j == 0:
                return i
            return i | j if isinstance(i, frozenset) and isinstance(j, frozenset) else TOP
        if i == 0:
            return j
        if j == 0:
            return i
        return TOP


def pair_hash(ctx):
    e, st = Bits(ctx.P), State()
    ctx.engines.append(e)
    e.unroll = 70
    key = ctx.one(Z + "zhash_pair")
    at = where(ctx, key)
    body = ctx.P.body(key)
    args = [e.mkdeep(st, f"c{i}", body["locals"][i + 1]) for i in range(2)]
    outs = e.run(key, args, st)
    if any(o.kind != "ret" for o in outs) or len(outs) != 1:
        raise Inconclusive("the pair hash was not evaluated to one expression")
    v = e.deref(outs[0].st, outs[0].val)
    bits = e.prov(v.p, v.ty)
    if bits is None or TOP in bits:
        raise Inconclusive("bits of the pair hash not traced")
    n = width(args[0].ty)
    names = [a.p.t[0][0][0] for a in args]
    high = {}
    for pos, b in enumerate(bits):
        for x in b if isinstance(b, frozenset) else ():
            high[x] = pos
    single = {next(iter(b)) for b in bits if isinstance(b, frozenset) and len(b) == 1}
    for c, nm in enumerate(names):
        lost = [i for i in range(n) if (nm, i) not in single]
        if lost:
            ctx.violation("zhash_pair|lost bits", at, f"the pair hash is not reversible: bits {lost[:4]} of the {'first second'.split()[c]} number cannot be told from it",
                          {"bits": lost, "number": c})
        have = [i for i in range(n) if (nm, i) in high]
        for i, j in zip(have, have[1:]):
            if high[(nm, i)] > high[(nm, j)]:
                ctx.violation("zhash_pair|bit order", at, f"the pair hash does not follow the order of the {'first second'.split()[c]} number: bit {i} outweighs bit {j}",
                              {"bit": i, "position": high[(nm, i)], "higher bit": j, "its position": high[(nm, j)]})
    ctx.obligation("pair hash: every input bit survives, heavier bits stay heavier", rows=len(bits), function=key)
    # the inverse
    kinv = ctx.one(Z + "zunhash_pair")
    e2, st2 = Bits(ctx.P), State()
    e2.unroll = 70
    ctx.engines.append(e2)
    w = e2.mkdeep(st2, "h", ctx.P.body(kinv)["locals"][1])
    outs = e2.run(kinv, [w], st2)
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Inconclusive("the inverse of the pair hash was not evaluated to one expression")
    r = e2.deref(outs[0].st, outs[0].val)
    for c, nm in enumerate(names):
        x = e2.deref(outs[0].st, r.f[c])
        got = e2.prov(x.p, x.ty, {w.p.t[0][0][0]: bits})
        if got is None or TOP in got:
            raise Inconclusive("bits of the inverse not traced")
        wrong = [i for i in range(n) if got[i] != frozenset([(nm, i)])]
        if wrong:
            b = got[wrong[0]]
            ctx.violation("zunhash_pair|inverse", where(ctx, kinv), f"undoing the pair hash does not give back bit {wrong[0]} of the {'first second'.split()[c]} number",
                          {"bit": wrong[0], "got": sorted(b) if isinstance(b, frozenset) else b})
    ctx.obligation("undoing the pair hash gives back both numbers", rows=2 * n, function=kinv)


class Grow:
    """how a term depends on one coordinate: 0 not at all, 1 grows, -1 shrinks, None unknown"""

    def __init__(self, e, st, c):
        self.e, self.st, self.c = e, st, c
        self.flips = None

    def negative(self, p):
        """p is, up to rounding, a sum of box values that is negative for some boxes"""
        d = self.e.single(p)
        if d is None or d[0] not in ("fAdd", "fSub") or not all(len(x.t) == 1 and self.plain(x) for x in d[1]):
            return False
        return bool(self.e.possible(self.st, d[1][0] + d[1][1] if d[0] == "fAdd" else d[1][0] - d[1][1]) & NEG)

    def plain(self, p):
        return all(a not in self.e.defs and a.startswith(("box.", "p.array[")) for a in p.atoms())

    def nonneg(self, p):
        e = self.e
        if e.possible(self.st, p) & NEG == 0:
            return True
        d = e.single(p)
        if d is None:
            return False
        op, a, t = d
        if op == "fSub":
            return e.possible(self.st, a[0] - a[1]) & NEG == 0
        if op in ("fMul", "fDiv", "fAdd"):
            return all(self.nonneg(x) for x in a)
        return False

    def of(self, p):
        e = self.e
        if p.is_const():
            return 0
        d = e.single(p)
        if d is None:
            s = 0
            for m, k in p.t:
                if self.c not in m and any(x not in e.defs and self.c in x for x in m):
                    return None
                if self.c in m or any(x in e.defs for x in m):
                    if len(m) > 1:
                        return None
                    x = 1 if m[0] == self.c else self.of(Poly.atom(m[0]))
                    if x is None:
                        return None
                    x = x if k > 0 else -x
                    if x and s and x != s:
                        return None
                    s = s or x
            return s
        op, a, t = d
        x = [self.of(y) for y in a]
        if None in x:
            return None
        if not any(x):
            return 0
        if op in ("fAdd", "fSub"):
            y = x[1] if op == "fAdd" else -x[1]
            return x[0] or y if not (x[0] and y) or x[0] == y else None
        if op == "fMul":
            if x[0] and x[1]:
                return None
            k, o = (x[0], a[1]) if x[0] else (x[1], a[0])
            return k if self.nonneg(o) else -k if self.nonneg(-o) else None
        if op == "fDiv":
            if not x[1] and not self.nonneg(a[1]) and self.negative(a[1]):
                self.flips = a[1]
            return x[0] if not x[1] and self.nonneg(a[1]) else None
        if op == "Shr":
            if x[1]:
                return None
            return x[0]
        if op in ("fround", "ffloor", "fceil", "ftrunc", "fround_ties_even"):
            return x[0]
        if op == "low":
            return x[0]
        return None


def coordinate_hash(ctx, kfn, kkey, ty):
    pair = ctx.one(Z + "zhash_pair")
    e, st = Bits(ctx.P), State()
    ctx.engines.append(e)
    seen = []

    def cap(eng, s, a, c, dty, fr, sp):
        s = s.copy()
        v = [eng.deref(s, x) for x in a]
        s.tags = dict(s.tags, pair=s.tags.get("pair", ()) + (tuple(v),))
        return [(Num(Poly.atom("hash", dty), dty), s)]
    e.fn_overrides[pair] = cap
    name = f"hash of {ty[1]} points"
    at = where(ctx, kfn)
    bk, bf = ctx.P.body(kkey), ctx.P.body(kfn)
    zbox = e.mkdeep(st, "box", bk["locals"][1])
    pt = e.mkdeep(st, "p", bf["locals"][2])
    box = {nm: Poly.atom(f"box.{nm}", ty) for nm in ("min_x", "max_x", "min_y", "max_y")}
    cs = [Poly.atom(f"p.array[{i}]", ty) for i in (0, 1)]
    for c, a in zip(cs, "xy"):
        e.add_sign(st, c - box["min_" + a], POS | ZER)
        e.add_sign(st, c - box["max_" + a], NEG | ZER)
        e.add_sign(st, box["max_" + a] - box["min_" + a], POS | ZER)
        if ty[0] == "int":
            l, h = int_range(ty)
            for v in (c, box["min_" + a], box["max_" + a]):
                e.add_sign(st, v - Poly.const(l), POS | ZER)
                e.add_sign(st, v - Poly.const(h), NEG | ZER)
            for v in (c - box["min_" + a], box["max_" + a] - c, box["max_" + a] - box["min_" + a]):
                e.add_sign(st, v - Poly.const(h - l), NEG | ZER)
    rows = 0
    for o in e.run(kkey, [zbox], st):
        if o.kind != "ret":
            panics(ctx, e, name, kkey, o)
            continue
        for o2 in e.run(kfn, [o.val, pt], o.st):
            if o2.kind != "ret":
                panics(ctx, e, name, kfn, o2)
                continue
            rows += 1
            s = o2.st
            got = s.tags.get("pair", ())
            v = e.deref(s, o2.val)
            if len(got) != 1 or not (isinstance(v, Num) and repr(v.p) == "hash"):
                raise Inconclusive("the hash is not the pair hash of two numbers")
            for i, a in enumerate("xy"):
                x = got[0][i]
                if not isinstance(x, Num):
                    raise Inconclusive("hashed number not recognised")
                one(ctx, e, s, name, at, x, cs[i], cs[1 - i], box["min_" + a], box["max_" + a], a)
    ctx.obligation(f"{name}: grows with each coordinate and fits 32 bits", rows=rows, function=kfn)


def panics(ctx, e, name, key, o):
    ats = {a for f, m in o.st.facts.items() if isinstance(f, Poly) and not (e.single(f) and m == POS | ZER) for a in f.atoms()}
    if all(known(e, a) for a in ats):
        ctx.violation(f"{name}|panics", where(ctx, key), f"{name}: panics for some boxes", {"when": facts_str(o.st)})
    else:
        raise Inconclusive("a panic is guarded by conditions that were not recognised")


def known(e, a):
    d = e.defs.get(a)
    return d is None and a.startswith(("box.", "p.array[")) or d is not None and d[0] == "lz"


def deps(e, p, seen=None):
    out = set()
    for a in p.atoms():
        d = e.defs.get(a)
        if d:
            for y in d[1]:
                out |= deps(e, y)
        else:
            i = a.find("(")
            if i > 0:
                import re
                out |= set(re.findall(r"box\.\w+|p\.array\[\d\]", a))
            else:
                out.add(a)
    return out


def bound(e, p, cn, hi):
    """value of a scaled coordinate at the high side of the box, when it is a number"""
    if p.is_const():
        return p.const_val()
    d = e.single(p)
    if not d:
        return None
    if d[0] == "fDiv" and at_high(e, d[1][0], cn, hi) == at_high(e, d[1][1], cn, hi):
        return 1
    x = [bound(e, y, cn, hi) for y in d[1]]
    if None in x:
        return None
    return x[0] * x[1] if d[0] == "fMul" else x[0] + x[1] if d[0] == "fAdd" else x[0] - x[1] if d[0] == "fSub" else x[0] / x[1] if x[1] else None


def at_high(e, p, cn, hi):
    d = e.single(p)
    if d:
        return (d[0],) + tuple(at_high(e, y, cn, hi) for y in d[1])
    return repr(hi) if p == Poly.atom(cn) else repr(p)


def one(ctx, e, s, name, at, x, c, other, lo, hi, axis):
    def bad(what, msg, d=None):
        ctx.violation(f"{name}|{what} {axis}", at, f"{name}: {msg}", dict({"term": repr(x.p)}, **(d or {})))
    dp = deps(e, x.p)
    cn, on = c.t[0][0][0], other.t[0][0][0]
    if on in dp:
        return bad("coordinate", f"the number for the {axis} axis depends on the other coordinate") if cn not in dp else bad(
            "coordinate", f"the number for the {axis} axis depends on both coordinates")
    if cn not in dp:
        if e.possible(s, hi - lo) == ZER:
            return
        raise Inconclusive("a number that does not depend on the coordinate")
    d, cut, t = e.single(x.p), None, x.p
    while d and d[0] == "low":
        cut = min(cut or 64, width(d[2]))
        t, d = d[1][0], e.single(d[1][0])
    if d and d[0] == "toint":
        arg = d[1][0]
        if cut and cut < width(d[2]):
            b = bound(e, arg, cn, hi)
            if b is None:
                raise Inconclusive("range of the scaled coordinate not recognised")
            if b >= 1 << cut:
                bad("fit", f"the scaled {axis} coordinate of the high corner does not fit {cut} bits", {"largest": b})
        grow = Grow(e, s, cn)
        g = grow.of(arg)
        if grow.flips is not None:
            return bad("direction", f"a larger {axis} coordinate can give a smaller number: the divisor is negative for some boxes", {"divisor": repr(grow.flips)})
        if not g:
            raise Inconclusive("growth of the scaled coordinate not recognised")
        if g < 0:
            bad("direction", f"a larger {axis} coordinate can give a smaller number")
        return
    # integers: exact difference, shifted, cut to 32 bits
    p, cut, shift, shifted_ty = x.p, width(x.ty), ZERO, None
    while True:
        d = e.single(p)
        if d is None:
            break
        if d[0] == "low":
            cut = min(cut, width(d[2]))
            p = d[1][0]
        elif d[0] == "Shr":
            shift = shift + d[1][1]
            shifted_ty = d[2]
            p = d[1][0]
            if d[2][2] and e.possible(s, p) == NEG and e.possible(s, Poly.const(width(d[2])) - shift - Poly.const(cut)) & NEG == 0:
                p = p + Poly.const(1 << width(d[2]))  # the copies of the sign bit are cut off again
            elif d[2][2] and e.possible(s, p) & NEG:
                return bad("sign", f"the distance from the low {axis} side is shifted as a negative number when it does not fit the signed type")
        elif d[0] == "Shl" and d[1][1].is_const() and shift == ZERO and not d[2][2]:
            cut = min(cut, width(d[2])) - d[1][1].const_val()
            p = d[1][0]
        elif d[0] == "BitAnd" and any(y.is_const() for y in d[1]) and not d[2][2]:
            p, m = d[1] if d[1][1].is_const() else d[1][::-1]
            m = m.const_val()
            if shift != ZERO or m <= 0 or m + (m & -m) & m:
                raise Inconclusive("hashed number not recognised")
            cut = min(cut, m.bit_length())
        else:
            raise Inconclusive("hashed number not recognised")
    if any(a in e.defs for a in p.atoms()) or not all(known(e, a) for a in p.atoms()):
        raise Inconclusive("hashed number not recognised")
    k = dict(p.t).get((cn,), 0)
    if any(cn in m and len(m) > 1 for m, _ in p.t):
        raise Inconclusive("hashed number not recognised")
    if k < 0:
        if e.possible(s, hi - lo) == ZER or e.possible(s, c - lo) == ZER:
            return
        return bad("direction", f"a larger {axis} coordinate gives a smaller number")
    if e.possible(s, p) & NEG:
        return bad("sign", f"the distance from the low {axis} side can be taken as a negative number")
    # largest value over the box must fit
    top = Poly.const(0)
    for m, q in p.t:
        t = hi if m == (cn,) else Poly.const(1)
        for a in (m if m != (cn,) else ()):
            t = t * Poly.atom(a)
        top = top + t.scale(q)
    i = e.bounds(s, top)
    if cut >= 64 and not shift.atoms():
        return
    if i[1] is not None and shift.is_const() and i[1] < 1 << (cut + shift.const_val()):
        return
    w = 64 if shifted_ty is None else width(shifted_ty)
    lzs = [(a, e.defs[a]) for a in {b for f in list(s.facts) if isinstance(f, Poly) for b in f.atoms()} | set(shift.atoms()) if e.defs.get(a, ("",))[0] == "lz"]
    s = s.copy()
    L = None
    for a, d in lzs:
        q = d[1][0]
        if q == top and width(d[2]) == w:
            L = Poly.atom(a)
    if L is None:
        L = Poly.atom("lz(top)", ("int", "u32", False))
        e.add_sign(s, L, POS | ZER)
        e.add_sign(s, L - Poly.const(w), NEG | ZER)
    if i[1] is not None and i[1] < 1 << w:
        e.add_sign(s, L - Poly.const(w - i[1].bit_length()), POS | ZER)
    for a, d in lzs:
        if width(d[2]) == w:
            if e.possible(s, d[1][0] - top) & NEG == 0:
                e.add_sign(s, L - Poly.atom(a), POS | ZER)
            if e.possible(s, top - d[1][0]) & NEG == 0:
                e.add_sign(s, Poly.atom(a) - L, POS | ZER)
    m = e.possible(s, Poly.const(w) - L - shift - Poly.const(cut))
    if m & POS:
        if any(not known(e, a) or (e.defs.get(a) and not all(known(e, b) for b in e.defs[a][1][0].atoms())) for a in shift.atoms()):
            raise Inconclusive("shift of the distance not recognised")
        bad("fit", f"the shifted distance on the {axis} axis does not fit {cut} bits for some boxes, so its top bits are lost", {"shift": repr(shift), "when": facts_str(s)[:8]})


def run(ctx):
    with_(ctx, "pair hash", Z + "zhash_pair", lambda: pair_hash(ctx))
    fns = {}
    for role in ("zhash_key", "zhash_fn"):
        for k in ctx.find(trait=Z + "ZHashable", name=role):
            fns.setdefault(ctx.P.fns[k]["impl_self"], {})[role] = k
    if not fns:
        ctx.missing("ZHashable")
    n = 0
    for ty, d in sorted(fns.items(), key=lambda x: repr(x[0])):
        if len(d) == 2 and isinstance(ty, tuple) and ty[0] in ("int", "float"):
            n += 1
            with_(ctx, f"hash of {ty[1]}", d["zhash_fn"], lambda: coordinate_hash(ctx, d["zhash_fn"], d["zhash_key"], ty))


def with_(ctx, name, key, f):
    try:
        f()
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))
