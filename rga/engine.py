"""Path-partitioned abstract interpretation of MIR.

Abstract domain: polynomial value numbers for scalars, structural values for aggregates, opaque
value numbers for everything else, and per-partition sign facts on polynomial normal forms.
Loops are summarised from a havoc'd head (phi value numbers); only loops whose trip count is a
compile-time constant are unrolled.  No concrete input is ever evaluated and no solver is called.
"""
import math
import os
import re
import time
from fractions import Fraction
from poly import Poly, ZERO, ONE, ATOM_TY, inverse
from values import *
from program import Program


class Inconclusive(Exception):
    pass


DEADLINE = time.monotonic() + float(os.environ.get("RGA_BUDGET", "420"))


def in_time():
    """what is not decided within the time budget stays undecided"""
    if time.monotonic() > DEADLINE:
        raise Inconclusive("time budget exceeded")


def int_poly(p):
    for a in p.atoms():
        t = ATOM_TY.get(a)
        if t is None or t[0] != "int":
            return False
    return True


SPLIT = {}


def split(p):
    """p = k*n + c with n primitive, k>0, no constant term"""
    r = SPLIT.get(p, 0)
    if r != 0:
        return r
    c = p.constant_part()
    n = p - Poly.const(c) if c else p
    if not n.t:
        r = None
    else:
        cn, s = n.canon()
        x, y = n.t[-1][1], cn.t[-1][1]
        k = x // y if isinstance(x, int) and x % y == 0 else Fraction(x) / y
        if s < 0:
            cn, k = -cn, -k
        r = cn, (k if k > 0 else -k), c
    if len(SPLIT) > 200000:
        SPLIT.clear()
    SPLIT[p] = r
    return r


def linear(p):
    return all(len(m) <= 1 for m, _ in p.t)


NONLINEAR = [False]     # keep bounds of non-linear forms too (machine arithmetic)


def tab_put1(tab, g, strict):
    sp = split(g)
    if sp is None:
        return
    n, k, c = sp
    b = -c if k == 1 else Fraction(-c) / k
    if int_poly(n):
        b = math.floor(b) + 1 if strict else math.ceil(b)
        strict = False
    o = tab.get(n)
    if o is None or (b, strict) > o:
        tab[n] = (b, strict)


def tab_put(tab, p, m):
    """enter the bounds implied by sign(p) in m into the lower-bound table n >= b"""
    if not (NONLINEAR[0] or linear(p)):
        return
    if m == POS:
        tab_put1(tab, p, True)
    elif m == POS | ZER:
        tab_put1(tab, p, False)
    elif m == ZER:
        tab_put1(tab, p, False)
        tab_put1(tab, -p, False)
    elif m == NEG | ZER:
        tab_put1(tab, -p, False)
    elif m == NEG:
        tab_put1(tab, -p, True)


class State:
    __slots__ = ("mem", "facts", "trace", "_tab", "tags")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = None
        self._tab = None
        self.tags = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.trace = self.trace
        s._tab = self._tab
        s.tags = self.tags
        return s

    def add(self, k, v):
        self.facts = dict(self.facts)
        self.facts[k] = v
        if self._tab is not None and isinstance(k, Poly):
            self._tab = dict(self._tab)
            tab_put(self._tab, k, v)

    def event(self, e):
        self.trace = (e, self.trace)

    def events(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]


def flip(m):
    return ((m & NEG) and POS or 0) | (m & ZER) | ((m & POS) and NEG or 0)


class Outcome:
    __slots__ = ("kind", "val", "st", "info")

    def __init__(self, kind, val, st, info=None):
        self.kind = kind      # ret | panic | back
        self.val = val
        self.st = st
        self.info = info

    def __repr__(self):
        return f"{self.kind}:{self.val!r}"


class LoopInfo:
    def __init__(self, key, head, sp, init, start, phis):
        self.key, self.head, self.sp, self.init, self.start, self.phis = key, head, sp, init, start, phis


ORD = "core::cmp::Ordering"
OPTION = "core::option::Option"
RESULT = "core::result::Result"
VEC = "alloc::vec::Vec"
DEQ = "alloc::collections::vec_deque::VecDeque"


def LESS():
    return Adt(ORD, 0, (), ("adt", ORD, ()))


def EQUAL():
    return Adt(ORD, 1, (), ("adt", ORD, ()))


def GREATER():
    return Adt(ORD, 2, (), ("adt", ORD, ()))


def ordv(sign):
    return Adt(ORD, {NEG: 0, ZER: 1, POS: 2}[sign], (), ("adt", ORD, ()))


def some(v, ty=None):
    return Adt(OPTION, 1, (v,), ("adt", OPTION, (ty,)))


def none(ty=None):
    return Adt(OPTION, 0, (), ("adt", OPTION, (ty,)))


INT_BITS = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "i128": 128, "u128": 128, "isize": 64, "usize": 64}


def int_range(ty):
    b = INT_BITS[ty[1]]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty[2] else (0, (1 << b) - 1)


TRANSPARENT = {"ordered_float::OrderedFloat", "ordered_float::NotNan", "core::num::wrapping::Wrapping"}
SCALAR_ADT = {"num_bigint::bigint::BigInt", "num_rational::Ratio", "num_bigint::biguint::BigUint"} | TRANSPARENT


def is_scalar_ty(t):
    if t is None:
        return False
    if t[0] in ("int", "float", "param"):
        return True
    if t[0] == "adt" and (t[1] in SCALAR_ADT or t[1].startswith("rug::") or t[1].startswith("gmp_mpfr")):
        return True
    if t[0] == "alias":
        return True
    return False


def is_float_ty(t):
    return t is not None and (t[0] == "float" or (t[0] == "adt" and t[1] in TRANSPARENT and t[2] and t[2][0][0] == "float"))


class Engine:
    def __init__(self, prog, N=2, strict=False, max_paths=60000, inline_depth=60):
        self.prog = prog
        self.N = N
        self.strict = strict
        NONLINEAR[0] = strict
        self.max_paths = max_paths
        self.inline_depth = inline_depth
        self.models = {}
        self.overrides = {}
        self.fn_overrides = {}   # function key -> contract
        self.cell_n = 0
        self.phi_n = 0
        self.fresh_n = 0
        self.phi_names = {}
        self.loops_cache = {}
        self.seqinfo = {}     # term -> ('push', base, val) / ('st', base, idx, val)
        self.visited = set()  # function keys analysed
        self.calls_seen = 0
        self.paths = 0
        self.unknown = {}
        self.loop_hook = None
        self.merge = True
        self.nvariants = {}
        self.alts = {}        # joined enum value numbers: term -> {variant: Adt}
        self.alts_changed = False
        self.steps = 0
        self.max_steps = 3_000_000
        self.unroll = 4
        self.trip_states = 300
        self.elems = {}             # name of an element read from a sequence -> (sequence, index)
        self.merge_rounds = None    # (state at the loop's entry, states after a round) -> states
        self.fixed_sizes = False    # lengths are given: every loop is taken for constant-trip
        self.trip_by_exit = False   # a loop that may end before its first round is not constant-trip
        self.track_overflow = False
        self.divisions = []   # exact divisions of non-machine scalars: (numerator, denominator, quotient, type)
        import models
        models.install(self)

    # ------------------------------------------------------------------ values
    def fresh(self, pfx="u"):
        self.fresh_n += 1
        return f"{pfx}{self.fresh_n}"

    def new_cell(self, st, v):
        self.cell_n += 1
        st.mem[self.cell_n] = v
        return self.cell_n

    def arrlen(self, n):
        return self.N if isinstance(n, str) else n

    def mk(self, term, ty):
        """symbolic value for `term` of type ty (lazy for enums/seqs, leaves become atoms)"""
        if ty is None:
            return Opq(term, None)
        if is_scalar_ty(ty):
            return Num(Poly.atom(term, ty), ty)
        if ty[0] == "tuple":
            return Tup([self.mk(f"{term}.{i}", t) for i, t in enumerate(ty[1])])
        if ty[0] == "array":
            return Arr([self.mk(f"{term}[{i}]", ty[1]) for i in range(self.arrlen(ty[2]))])
        return Opq(term, ty)

    def mkdeep(self, st, term, ty, depth=0):
        """argument value: references get their own cells, structs expanded"""
        if ty is None:
            return Opq(term, None)
        if ty[0] == "ref":
            if ty[1][0] in ("slice", "str"):
                return Ref(self.new_cell(st, Opq(term, ty[1])), (), ty[2])
            return Ref(self.new_cell(st, self.mkdeep(st, term, ty[1], depth + 1)), (), ty[2])
        if is_scalar_ty(ty):
            return Num(Poly.atom(term, ty), ty)
        if ty[0] == "tuple":
            return Tup([self.mkdeep(st, f"{term}.{i}", t, depth + 1) for i, t in enumerate(ty[1])])
        if ty[0] == "array":
            return Arr([self.mkdeep(st, f"{term}[{i}]", ty[1], depth + 1) for i in range(self.arrlen(ty[2]))])
        if ty[0] == "adt":
            a = self.prog.adts.get(ty[1])
            if a and a["kind"] == "Struct" and (a["local"] or ty[1].startswith("core::ops::range")) and depth < 8:
                fs = a["variants"][0]["f"]
                out = []
                for i, f in enumerate(fs):
                    ft = self.prog.field_ty(ty, 0, i)
                    nm = f["n"]
                    out.append(self.mkdeep(st, f"{term}.{nm}", ft, depth + 1))
                return Adt(ty[1], 0, out, ty)
        return Opq(term, ty)

    def typeof(self, v):
        if isinstance(v, bool):
            return ("bool",)
        if isinstance(v, Num):
            return v.ty
        if isinstance(v, Adt):
            return v.ty or ("adt", v.path, ())
        if isinstance(v, Opq):
            return v.ty
        if isinstance(v, Tup):
            return ("tuple", tuple(self.typeof(x) for x in v.f))
        if isinstance(v, Arr):
            et = self.typeof(v.f[0]) if v.f else None
            if et is None and v.ty is not None:
                return v.ty
            if v.kind == "vec":
                return ("adt", VEC, (et,))
            if v.kind == "deque":
                return ("adt", DEQ, (et,))
            return ("array", et, len(v.f))
        return None

    def deref(self, st, v):
        n = 0
        while True:
            if isinstance(v, Ref):
                v = self.load(st, v.c, v.pr)
            elif isinstance(v, Opq) and v.ty is not None and v.ty[0] in ("ref", "ptr"):
                v = self.load(st, ("d", v.t), ()) if ("d", v.t) in st.mem else self.mk(v.t, v.ty[1])
            else:
                return v
            n += 1
            if n > 20:
                raise Inconclusive("deref loop")

    def key(self, st, v):
        """canonical value-number string of a value (references are read through)"""
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, Num):
            return repr(v)
        if isinstance(v, Ref):
            return "&" + self.key(st, self.load(st, v.c, v.pr))
        if isinstance(v, Adt):
            return f"{v.path.split('::')[-1]}#{v.v}({','.join(self.key(st, x) for x in v.f)})"
        if isinstance(v, Tup):
            return f"({','.join(self.key(st, x) for x in v.f)})"
        if isinstance(v, Arr):
            return f"[{','.join(self.key(st, x) for x in v.f)}]"
        if isinstance(v, Clo):
            return f"clo<{v.key}>({','.join(self.key(st, x) for x in v.f)})"
        if isinstance(v, Opq):
            return f"<{v.t}>"
        return repr(v)

    # ------------------------------------------------------------------ facts
    def add_sign(self, st, p, mask):
        """restrict sign(p) to mask; False when contradictory"""
        if p.is_const():
            c = p.const_val()
            s = NEG if c < 0 else POS if c > 0 else ZER
            return bool(s & mask)
        c, s = p.canon()
        m = mask if s > 0 else flip(mask)
        old = st.facts.get(c, ANY)
        new = old & m
        if new == 0:
            return False
        if new != old:
            st.add(c, new)
        return True

    def table(self, st):
        """lower-bound table from linear facts: n >= b (strict?)"""
        if st._tab is not None:
            return st._tab
        tab = {}
        for p, m in st.facts.items():
            if isinstance(p, Poly):
                tab_put(tab, p, m)
        st._tab = tab
        return tab

    def lower(self, st, p):
        """best provable lower bound (value, strict) of p using at most two facts, or None"""
        sp = split(p)
        if sp is None:
            return (p.const_val(), False)
        n, k, c = sp
        tab = self.table(st)
        best = None

        def consider(b, s):
            nonlocal best
            v = (b * k + c, s)
            if best is None or v > best:
                best = v
        if n in tab:
            consider(*tab[n])
        nat = self.natural_low(n)
        if nat is not None:
            consider(nat, False)
        if self.strict or linear(n):
            natoms = n.atoms()
            for n1, (b1, s1) in tab.items():
                if not (natoms & n1.atoms()):
                    continue
                for k1 in (1,):
                    r = n - n1
                    spr = split(r)
                    if spr is None:
                        consider(b1 + r.const_val(), s1)
                        continue
                    n2, k2, c2 = spr
                    if n2 in tab:
                        b2, s2 = tab[n2]
                        consider(b1 + k2 * b2 + c2, s1 or s2)
                    else:
                        nat = self.natural_low(n2)
                        if nat is not None:
                            consider(b1 + k2 * nat + c2, s1)
        return best

    def natural_low(self, n):
        """natural lower bound of a form with non-negative atoms (usize etc.)"""
        b = 0
        for m, c in n.t:
            if len(m) != 1:
                if c > 0 and all(ATOM_TY.get(a) and ATOM_TY[a][0] == "int" and not ATOM_TY[a][2] for a in m):
                    continue
                return None
            t = ATOM_TY.get(m[0])
            if t is None or t[0] != "int":
                return None
            if self.strict or t[1] not in ("usize", "u64", "u32"):
                lo, hi = int_range(t)
                b += c * (lo if c > 0 else hi)
            else:
                if t[2] or c < 0:
                    return None
        return b

    def possible(self, st, p):
        if p.is_const():
            c = p.const_val()
            return NEG if c < 0 else POS if c > 0 else ZER
        c, s = p.canon()
        mask = st.facts.get(c, ANY)
        if mask not in (NEG, ZER, POS):
            if len(c.t) == 1 and all(ATOM_TY.get(a, ("",))[0] == "int" and not ATOM_TY[a][2] for a in c.t[0][0]):
                mask &= POS | ZER
            lo = self.lower(st, c)
            if lo is not None:
                b, strict = lo
                if b > 0 or (b == 0 and strict):
                    mask &= POS
                elif b == 0:
                    mask &= POS | ZER
            hi = self.lower(st, -c)
            if hi is not None:
                b, strict = hi
                if b > 0 or (b == 0 and strict):
                    mask &= NEG
                elif b == 0:
                    mask &= NEG | ZER
            if mask == 0:
                return 0
        return mask if s > 0 else flip(mask)

    def signs(self, st, p):
        """fork over the possible signs of p"""
        m = self.possible(st, p)
        out = []
        single = m in (NEG, ZER, POS)
        for s in (NEG, ZER, POS):
            if m & s:
                st2 = st if single else st.copy()
                if single or self.add_sign(st2, p, s):
                    out.append((s, st2))
        return out

    def test(self, st, p, mask):
        """fork on sign(p) in mask"""
        m = self.possible(st, p)
        if m == 0:
            return []
        if m & mask == 0:
            return [(False, st)]
        if m & ~mask == 0:
            return [(True, st)]
        out = []
        a = st.copy()
        if self.add_sign(a, p, m & mask):
            out.append((True, a))
        b = st.copy()
        if self.add_sign(b, p, m & ~mask):
            out.append((False, b))
        return out

    def ask_bool(self, st, v):
        """fork an opaque boolean"""
        v = self.deref(st, v)
        if isinstance(v, bool):
            return [(v, st)]
        if isinstance(v, Num):
            return self.test(st, v.p, NEG | POS)
        if isinstance(v, Opq):
            k = ("bool", v.t)
            if k in st.facts:
                return [(st.facts[k], st)]
            out = []
            for b in (True, False):
                s2 = st.copy()
                s2.add(k, b)
                out.append((b, s2))
            return out
        raise Inconclusive(f"bool of {v!r}")

    def variants(self, st, v):
        """fork an opaque enum over its variants -> (variant index, st)"""
        if isinstance(v, Adt):
            return [(v.v, st)]
        if isinstance(v, Opq):
            ty = v.ty
            while ty is not None and ty[0] == "ref":
                ty = ty[1]
            if ty is None or ty[0] != "adt" or ty[1] not in self.prog.adts:
                raise Inconclusive(f"discriminant of untyped {v!r}: {ty}")
            k = ("variant", v.t)
            if k in st.facts:
                return [(st.facts[k], st)]
            n = len(self.prog.adts[ty[1]]["variants"])
            if n == 1:
                return [(0, st)]
            out = []
            self.nvariants[v.t] = len(self.alts[v.t]) if v.t in self.alts else n
            for i in (sorted(self.alts[v.t]) if v.t in self.alts else range(n)):
                s2 = st.copy()
                s2.add(k, i)
                out.append((i, s2))
            return out
        raise Inconclusive(f"discriminant of {v!r}")

    # ------------------------------------------------------------------ memory
    def cell(self, st, c):
        if c in st.mem:
            return st.mem[c]
        if isinstance(c, tuple) and c[0] == "d":
            return UNINIT
        return UNINIT

    def load(self, st, c, pr):
        v = self.cell(st, c)
        for s in pr:
            v = self.project(st, v, s)
        return v

    def project(self, st, v, s):
        k = s[0]
        if isinstance(v, Ref):
            v = self.load(st, v.c, v.pr)
        if k == ".":
            i = s[1]
            if isinstance(v, (Adt, Tup, Clo, Arr)):
                if i < len(v.f):
                    return v.f[i]
                if isinstance(v, Adt) and v.path in TRANSPARENT:
                    return v.f[0]
                raise Inconclusive(f"field {i} of {v!r}")
            if isinstance(v, Num):
                return v
            if isinstance(v, Opq):
                ty, var = v.ty, 0
                if ty is not None and ty[0] == "variant":
                    var, ty = ty[2], ty[1]
                while ty is not None and ty[0] == "ref":
                    ty = ty[1]
                ft = self.prog.field_ty(ty, var, i)
                if ft is None and len(s) > 2:
                    ft = s[2]
                nm = str(i)
                if ty is not None and ty[0] == "adt" and ty[1] in self.prog.adts:
                    try:
                        nm = self.prog.adts[ty[1]]["variants"][var]["f"][i]["n"]
                    except IndexError:
                        pass
                return self.mk(f"{v.t}.{nm}", ft)
            if v is UNINIT:
                return UNINIT
            raise Inconclusive(f"field of {v!r}")
        if k == "v":
            if isinstance(v, Opq):
                ty = v.ty
                while ty is not None and ty[0] == "ref":
                    ty = ty[1]
                if v.t in self.alts and s[1] in self.alts[v.t]:
                    return self.alts[v.t][s[1]]
                return Opq(f"{v.t}@{s[1]}", ("variant", ty, s[1]))
            return v
        if k == "i":
            return self.seq_read(st, v, s[1])
        if k == "c":
            if s[3]:
                return self.seq_read(st, v, self.seq_len(st, v) - Poly.const(s[1]))
            return self.seq_read(st, v, Poly.const(s[1]))
        if k == "s":
            frm, to, fe = s[1], s[2], s[3]
            if isinstance(v, Arr):
                end = len(v.f) - to if fe else to
                return Arr(v.f[frm:end])
            if isinstance(v, Opq):
                t = f"{v.t}[{frm}..{'-' + str(to) if fe else to}]"
                self.seqinfo[t] = ("sub", v, Poly.const(frm), (self.seq_len(st, v) - Poly.const(to) if fe else Poly.const(to)) - Poly.const(frm))
                return Opq(t, v.ty)
        if k == "view":
            # sub-slice view (offset, len)
            if isinstance(v, Arr) and s[1].is_const() and s[2].is_const():
                return Arr(v.f[s[1].const_val():s[1].const_val() + s[2].const_val()])
            t = f"{self.key(st, v)}[{s[1]}..+{s[2]}]"
            self.seqinfo[t] = ("sub", v, s[1], s[2])
            return Opq(t, self.slice_ty(v))
        if k in ("o", "?"):
            return v
        raise Inconclusive(f"projection {s} of {v!r}")

    def slice_ty(self, v):
        return ("slice", self.elem_ty(v))

    def elem_ty(self, v):
        t = self.typeof(v)
        while t is not None and t[0] == "ref":
            t = t[1]
        if t is None:
            return None
        if t[0] in ("slice", "array"):
            return t[1]
        if t[0] == "adt" and t[2]:
            return t[2][0]
        return None

    def seq_len(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, (Arr, Tup)):
            return Poly.const(len(v.f))
        if isinstance(v, Opq):
            i = self.seqinfo.get(v.t)
            if i:
                if i[0] == "push":
                    return self.seq_len(st, i[1]) + ONE
                if i[0] == "st":
                    return self.seq_len(st, i[1])
                if i[0] in ("sub", "sized"):
                    return i[3] if i[0] == "sub" else i[2]
                if i[0] in ("perm", "swap", "rev", "upd"):
                    return self.seq_len(st, i[1])
                if i[0] == "ins":
                    return i[4]
                if i[0] == "comp":
                    return self.seq_len(st, i[1]) + Poly.atom(i[2], ("int", "usize", False)) - i[3]
                if i[0] == "grow":
                    return i[3]
                if i[0] == "fill":
                    return i[2]
            if v.ty is not None and v.ty[0] == "array":
                return Poly.const(self.arrlen(v.ty[2]))
            return Poly.atom(f"len({v.t})", ("int", "usize", False))
        raise Inconclusive(f"len of {v!r}")

    def seq_read(self, st, v, idx):
        if isinstance(v, Adt) and v.path in ("prelude::VecMarker",):
            v = v.f[0]
        if isinstance(v, (Arr, Tup)):
            if idx.is_const():
                i = idx.const_val()
                if 0 <= i < len(v.f):
                    return v.f[i]
                return Opq(f"oob{i}", None)
            if v.f and all(x == v.f[0] for x in v.f):
                return v.f[0]
            # pinned by facts?
            for i in range(len(v.f)):
                if self.possible(st, idx - Poly.const(i)) == ZER:
                    return v.f[i]
            return self.mk(f"{self.key(st, v)}[{idx}]", self.elem_ty(v))
        if isinstance(v, Opq):
            i = self.seqinfo.get(v.t)
            if i:
                if i[0] == "push":
                    d = self.possible(st, idx - self.seq_len(st, i[1]))
                    if d == ZER:
                        return i[2]
                    if d & ZER == 0:
                        return self.seq_read(st, i[1], idx)
                elif i[0] == "st":
                    d = self.possible(st, idx - i[2])
                    if d == ZER:
                        return i[3]
                    if d & ZER == 0:
                        return self.seq_read(st, i[1], idx)
                elif i[0] == "swap":
                    a, b = i[2], i[3]
                    da, db = self.possible(st, idx - a), self.possible(st, idx - b)
                    if da == ZER:
                        return self.seq_read(st, i[1], b)
                    if db == ZER:
                        return self.seq_read(st, i[1], a)
                    if da & ZER == 0 and db & ZER == 0:
                        return self.seq_read(st, i[1], idx)
                elif i[0] == "sub":
                    return self.seq_read(st, i[1], idx + i[2])
                elif i[0] == "comp":
                    n0 = self.seq_len(st, i[1])
                    d = self.possible(st, idx - n0)
                    if d == NEG:
                        return self.seq_read(st, i[1], idx)
                    if d & NEG == 0 and i[4] is not None:
                        w = self.subst_val(i[4], i[2], idx - n0 + i[3])
                        if w is not None:
                            return w
                elif i[0] == "upd":
                    lo, hi = self.possible(st, idx - i[3]), self.possible(st, Poly.atom(i[2], ATOM_TY.get(i[2])) - idx)
                    if lo == NEG or hi & POS == 0:
                        return self.seq_read(st, i[1], idx)
                    if lo & NEG == 0 and hi == POS:
                        w = self.subst_val(i[4], i[2], idx)
                        if w is not None:
                            return w
                elif i[0] == "fill":
                    return i[1]
                elif i[0] == "rev":
                    return self.seq_read(st, i[1], self.seq_len(st, i[1]) - ONE - idx)
                elif i[0] == "ins":
                    d = self.possible(st, idx - i[2])
                    if d == ZER:
                        return i[3]
                    if d == POS:
                        return self.seq_read(st, i[1], idx - ONE)
                    if d == NEG:
                        return self.seq_read(st, i[1], idx)
                elif i[0] == "grow":
                    d = self.possible(st, idx - i[2])
                    if d == NEG:
                        return self.seq_read(st, i[1], idx)
                    if d & NEG == 0:
                        return i[4]
            self.elems[f"{v.t}[{idx}]"] = (v.t, idx)
            return self.mk(f"{v.t}[{idx}]", self.elem_ty(v))
        if v is UNINIT:
            return UNINIT
        raise Inconclusive(f"index of {v!r}")

    def seq_write(self, st, v, idx, val):
        if isinstance(v, Arr) and idx.is_const():
            f = list(v.f)
            i = idx.const_val()
            if i < len(f):
                f[i] = val
            return Arr(f, v.kind)
        t = f"st({self.key(st, v)},{idx},{self.key(st, val)})"
        if isinstance(v, (Opq, Arr)):
            self.seqinfo[t] = ("st", v, idx, val)
            return Opq(t, self.typeof(v))
        raise Inconclusive(f"store into {v!r}")

    def store(self, st, c, pr, val):
        st.mem[c] = self.upd(st, self.cell(st, c), pr, val)

    def expand(self, st, v):
        """expand an opaque struct into explicit fields"""
        ty, var = v.ty, 0
        if ty is not None and ty[0] == "variant":
            var, ty = ty[2], ty[1]
        while ty is not None and ty[0] == "ref":
            ty = ty[1]
        if ty is not None and ty[0] == "tuple":
            return self.mk(v.t, ty)
        if ty is None or ty[0] != "adt" or ty[1] not in self.prog.adts:
            return None
        a = self.prog.adts[ty[1]]
        if a["kind"] != "Struct":
            k = ("variant", v.t)
            if v.ty[0] != "variant":
                if k in st.facts:
                    var = st.facts[k]
                else:
                    return None
            base = v.t if v.ty[0] == "variant" else f"{v.t}@{var}"
        else:
            base = v.t
        fs = a["variants"][var]["f"]
        return Adt(ty[1], var, [self.mk(f"{base}.{f['n']}", self.prog.field_ty(ty, var, i)) for i, f in enumerate(fs)], ty)

    def upd(self, st, v, pr, val):
        if not pr:
            return val
        s, rest = pr[0], pr[1:]
        if isinstance(v, Ref):
            self.store(st, v.c, v.pr + tuple(pr), val)
            return v
        if s[0] == ".":
            i = s[1]
            if isinstance(v, Opq):
                e = self.expand(st, v)
                if e is None:
                    nv = self.upd(st, self.project(st, v, s), rest, val)
                    t = f"fst({v.t},{i},{self.key(st, nv)})"
                    return Opq(t, v.ty)
                v = e
            if v is UNINIT:
                v = Tup([UNINIT] * (i + 1))
            if isinstance(v, Num):
                return self.upd(st, v, rest, val)
            f = list(v.f)
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.upd(st, f[i], rest, val)
            if isinstance(v, Adt):
                return Adt(v.path, v.v, f, v.ty)
            if isinstance(v, Clo):
                return Clo(v.key, f)
            if isinstance(v, Arr):
                return Arr(f, v.kind)
            return Tup(f)
        if s[0] == "v":
            if isinstance(v, Opq):
                if v.t in self.alts and s[1] in self.alts[v.t]:
                    return self.upd(st, self.alts[v.t][s[1]], rest, val)
                e = self.expand(st, Opq(f"{v.t}@{s[1]}", ("variant", v.ty, s[1])))
                if e is not None:
                    return self.upd(st, e, rest, val)
            return self.upd(st, v, rest, val)
        if s[0] == "i":
            if rest:
                val = self.upd(st, self.seq_read(st, v, s[1]), rest, val)
            return self.seq_write(st, v, s[1], val)
        if s[0] == "c":
            idx = self.seq_len(st, v) - Poly.const(s[1]) if s[3] else Poly.const(s[1])
            if rest:
                val = self.upd(st, self.seq_read(st, v, idx), rest, val)
            return self.seq_write(st, v, idx, val)
        if s[0] == "view":
            if rest and rest[0][0] == "i":
                return self.upd(st, v, (("i", rest[0][1] + s[1]),) + tuple(rest[1:]), val)
            if not rest:
                t = f"subst({self.key(st, v)},{s[1]},{s[2]},{self.key(st, val)})"
                self.seqinfo[t] = ("sized", v, self.seq_len(st, v))
                return Opq(t, self.typeof(v))
        if s[0] in ("o", "?"):
            return self.upd(st, v, rest, val)
        raise Inconclusive(f"update {s} of {v!r}")

    # place resolution ------------------------------------------------------
    def resolve(self, fr, place, st):
        l, proj = place
        c, pr = fr.cells[l], ()
        for e in proj:
            if e[0] == "*":
                v = self.load(st, c, pr)
                if isinstance(v, Ref):
                    c, pr = v.c, v.pr
                elif isinstance(v, Opq) and v.ty is not None and v.ty[0] in ("ref", "ptr"):
                    k = ("d", v.t)
                    if k not in st.mem:
                        st.mem[k] = self.mk(v.t, v.ty[1])
                    c, pr = k, ()
                elif isinstance(v, Opq) and v.ty is not None and v.ty[0] == "adt" and v.ty[1] == "alloc::boxed::Box":
                    k = ("d", v.t)
                    if k not in st.mem:
                        st.mem[k] = self.mk(v.t + ".*", v.ty[2][0])
                    c, pr = k, ()
                # otherwise: value already read through
            elif e[0] == "i":
                iv = self.load(st, fr.cells[e[1]], ())
                iv = self.deref(st, iv)
                if not isinstance(iv, Num):
                    raise Inconclusive(f"index {iv!r}")
                pr = pr + (("i", iv.p),)
            else:
                pr = pr + (e,)
        return c, pr

    # operands --------------------------------------------------------------
    def operand(self, fr, o, st):
        if o[0] in ("cp", "mv"):
            c, pr = self.resolve(fr, o[1], st)
            v = self.load(st, c, pr)
            return v
        if o[0] == "k":
            return self.const(fr, o[1], st)
        return False   # RuntimeChecks

    def const(self, fr, c, st):
        ty = c["t"]
        if "fn" in c:
            return FnV(c["fn"])
        if "bits" in c:
            b = int(c["bits"])
            if ty[0] == "bool":
                return bool(b)
            if ty[0] == "int":
                w = INT_BITS[ty[1]]
                if ty[2] and b >= 1 << (w - 1):
                    b -= 1 << w
                return Num(Poly.const(b), ty)
            if ty[0] == "float":
                import struct
                f = struct.unpack("<d", struct.pack("<Q", b))[0] if ty[1] == "f64" else struct.unpack("<f", struct.pack("<I", b))[0]
                if f != f or f in (float("inf"), float("-inf")):
                    return Num(Poly.atom(f"float:{f}", ty), ty)
                fr_ = Fraction(f)
                return Num(Poly.const(int(fr_) if fr_.denominator == 1 else fr_), ty)
            if ty[0] == "adt":
                return self.adt_bits(ty, b, c)
            return Num(Poly.const(b), ty)
        if "cparam" in c:
            return Num(Poly.const(self.N), ty)
        if "zst" in c:
            if ty[0] == "adt":
                a = self.prog.adts.get(ty[1])
                fs = []
                if a and a["variants"]:
                    fs = [Opq("zst", self.prog.field_ty(ty, 0, i)) for i in range(len(a["variants"][0]["f"]))]
                return Adt(ty[1], 0, fs, ty)
            if ty[0] == "closure":
                return Opq("zstclosure", ty)
            if ty[0] == "tuple":
                return UNIT
            return Opq("zst", ty)
        if "promoted" in c:
            k = c["promoted"]
            if k in self.prog.fns:
                outs = self.exec_fn(k, [], st, 0)
                if len(outs) == 1 and outs[0].kind == "ret":
                    st.mem.update(outs[0].st.mem)
                    return outs[0].val
            return Opq(f"promoted:{k}", ty)
        if "named" in c:
            k = c.get("r")
            if k in self.prog.fns:
                outs = self.exec_fn(k, [], st, 0)
                if len(outs) == 1 and outs[0].kind == "ret":
                    st.mem.update(outs[0].st.mem)
                    return outs[0].val
            if ty[0] == "int" and c["named"].endswith("::MAX"):
                return Num(Poly.const(int_range(ty)[1]), ty)
            return self.mk(f"const:{c['named']}", ty)
        if "static" in c:
            return Opq(f"static:{c['static']}", ty)
        o = c.get("opaque", "?")
        if ty[0] == "ref" and ty[1] == ("str",):
            return Opq(f"str:{o}", ty)
        if ty[0] == "adt" and ty[1] == OPTION and o.endswith("None"):
            return none(ty[2][0])
        return self.mk(f"const:{o}", ty)

    def adt_bits(self, ty, b, c):
        a = self.prog.adts.get(ty[1])
        if a and a["kind"] == "Enum":
            for i, v in enumerate(a["variants"]):
                if int(v["d"]) == b and not v["f"]:
                    return Adt(ty[1], i, (), ty)
        if a and a["kind"] == "Struct" and len(a["variants"][0]["f"]) == 1:
            ft = self.prog.field_ty(ty, 0, 0)
            if ft and ft[0] == "int":
                return Adt(ty[1], 0, [Num(Poly.const(b), ft)], ty)
        d = c.get("d", "")
        if ty[1] == OPTION and "None" in d:
            return none(ty[2][0])
        return self.mk(f"const:{d}", ty)

    # ------------------------------------------------------------------ functions
    def loops(self, key):
        if key in self.loops_cache:
            return self.loops_cache[key]
        body = self.prog.body(key)
        bbs = body["bbs"]
        succ = [self.succs(b["t"]) for b in bbs]
        # dominators on non-cleanup blocks
        n = len(bbs)
        order, seen = [], set()

        def dfs(s):
            stack = [(s, iter(succ[s]))]
            seen.add(s)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body_ = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        stack.extend(preds[x])
        self.loops_cache[key] = loops
        return loops

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[4]]
        return []

    def exec_fn(self, key, args, st, depth):
        ov = self.fn_overrides.get(key)
        if ov is not None:
            f = self.prog.fns[key]
            r = ov(self, st, args, {"name": f["name"], "p": f["path"], "r": key}, f.get("output"), None, None)
            if r is not None:
                return self.norm(r)
        if depth > self.inline_depth:
            raise Inconclusive(f"inline depth exceeded at {key}")
        body = self.prog.body(key)
        self.visited.add(key)
        fr = Frame(key, body, depth)
        entry = st
        cell0 = self.cell_n
        st = st.copy()
        for i in range(len(body["locals"])):
            fr.cells.append(self.new_cell(st, UNINIT))
        argc = body["argc"]
        if body["spread"] is not None and len(args) != argc:
            sp = body["spread"]
            args = list(args[:sp - 1]) + [Tup(args[sp - 1:])]
        if len(args) != argc:
            raise Inconclusive(f"argument count {len(args)} != {argc} for {key}")
        for i, a in enumerate(args):
            st.mem[fr.cells[i + 1]] = a
        res = self.exec_region(fr, 0, st, None, None)
        out = []
        for k, x, s in res:
            if k == "term":
                out.append(x)
            else:
                raise Inconclusive("region leak")
        if depth > 0:
            out = self.on_return(entry, cell0, out)
        return out

    # ---- dead-cell removal and exact (lossless) merging of partitions at function return
    def reach(self, mem, v, acc, cell0, seen=None):
        stack = [v]
        while stack:
            v = stack.pop()
            if isinstance(v, Ref):
                if v.c not in acc:
                    acc.add(v.c)
                    if v.c in mem:
                        stack.append(mem[v.c])
                for p in v.pr:
                    pass
            elif isinstance(v, (Adt, Tup, Arr, Clo)):
                stack.extend(v.f)
            elif isinstance(v, Opq):
                if ("d", v.t) not in acc:
                    acc.add(("d", v.t))
                    if ("d", v.t) in mem:
                        stack.append(mem[("d", v.t)])
                    i = self.seqinfo.get(v.t)
                    if i:
                        stack.extend(x for x in i[1:] if not isinstance(x, (Poly, str, int)))
                    a = self.alts.get(v.t)
                    if a:
                        stack.extend(a.values())
        return acc

    def on_return(self, entry, cell0, out):
        ent = entry.mem
        for o in out:
            if o.kind == "back":
                continue
            m = o.st.mem
            acc = set()
            roots = []
            if o.kind == "ret":
                roots.append(o.val)
            for c, v in ent.items():
                w = m.get(c)
                if w is not v:
                    roots.append(w)
            for v in roots:
                self.reach(m, v, acc, cell0)
            nm = {}
            for c, v in m.items():
                if c in ent or c in acc or (isinstance(c, tuple)):
                    nm[c] = v
            o.st.mem = nm
        if len(out) < 2 or not self.merge:
            return out
        groups, order = {}, []
        for o in out:
            if o.kind == "back":
                order.append(o)
                continue
            if o.kind == "ret":
                k = ("ret", self.key(o.st, o.val), self.shape(o.val))
            else:
                k = (o.kind, repr(o.val))
            k = k + (id(o.st.trace),)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(o)
        res = []
        for x in order:
            if isinstance(x, Outcome):
                res.append(x)
            elif len(groups[x]) == 1:
                res.append(groups[x][0])
            else:
                res.extend(self.merge_group(entry, groups[x]))
        return res

    def shape(self, v):
        return type(v).__name__

    def merge_group(self, entry, os):
        ent = entry.mem
        # sub-group by effects on pre-existing memory
        subs = []
        for o in os:
            for g in subs:
                m1, m2 = g[0].st.mem, o.st.mem
                if g[0].st.tags.get("mask") is o.st.tags.get("mask") and all((m1.get(c) is m2.get(c)) or self.samev(g[0].st, m1.get(c), o.st, m2.get(c)) for c in ent):
                    g.append(o)
                    break
            else:
                subs.append([o])
        out = []
        for g in subs:
            if len(g) == 1:
                out.append(g[0])
                continue
            base = entry.facts
            items = []
            for o in g:
                d = {}
                for k, v in o.st.facts.items():
                    if base.get(k, None) != v:
                        d[k] = v
                items.append((d, o))
            changed = True
            while changed and len(items) > 1:
                changed = False
                keys = []
                for d, _ in items:
                    for k in d:
                        if k not in keys:
                            keys.append(k)
                for k in keys:
                    buckets = {}
                    for d, o in items:
                        rest = frozenset((a, b) for a, b in d.items() if a != k)
                        buckets.setdefault(rest, []).append((d, o))
                    if len(buckets) == len(items):
                        continue
                    new = []
                    for rest, b in buckets.items():
                        if len(b) == 1:
                            new.append(b[0])
                            continue
                        vals = [d.get(k, base.get(k)) for d, _ in b]
                        mv = self.join_fact(k, vals, base.get(k))
                        if mv is None:
                            new.extend(b)
                            continue
                        nd = dict(rest)
                        if mv != "any":
                            nd[k] = mv
                        new.append((nd, b[0][1]))
                        changed = True
                    items = new
            for d, o in items:
                f = dict(base)
                f.update(d)
                for k in list(f):
                    if f[k] == ANY and isinstance(k, Poly):
                        del f[k]
                if f != o.st.facts:
                    o.st = o.st.copy()
                    o.st.facts = f
                    o.st._tab = None
                out.append(o)
        return out

    def samev(self, s1, a, s2, b):
        if a is None or b is None:
            return False
        return type(a) == type(b) and self.key(s1, a) == self.key(s2, b)

    def join_fact(self, k, vals, base):
        if isinstance(k, Poly):
            m = 0
            for v in vals:
                m |= ANY if v is None else v
            if m == (ANY if base is None else base):
                return "any"
            return m
        if any(v is None for v in vals):
            return "any"
        if k[0] == "bool":
            return "any" if len(set(vals)) == 2 else vals[0]
        if k[0] == "variant":
            s = set(vals)
            if len(s) == 1:
                return vals[0]
            n = self.nvariants.get(k[1])
            return "any" if n is not None and len(s) == n else None
        return None

    def returns(self, fr, bb):
        """can this block reach a return (and not only a panic)?"""
        bbs, seen, work = fr.body["bbs"], set(), [bb]
        while work:
            b = work.pop()
            if bbs[b]["t"][0] == "ret":
                return True
            if b not in seen:
                seen.add(b)
                work += self.succs(bbs[b]["t"])
        return False

    def exec_region(self, fr, start, st, region, head):
        """returns list of ('term', Outcome, None) | ('exit', bb, st) | ('back', None, st)"""
        loops = self.loops(fr.key)
        work = [(start, st, True)]
        res = []
        while work:
            bb, s, first = work.pop()
            if not first and head is not None and bb == head:
                res.append(("back", None, s))
                continue
            if region is not None and bb not in region:
                res.append(("exit", bb, s))
                continue
            if bb in loops and not (bb == head and first):
                for r in self.handle_loop(fr, bb, s, loops[bb]):
                    if r[0] == "exit":
                        work.append((r[1], r[2], False))
                    else:
                        res.append(r)
                continue
            for r in self.exec_block(fr, bb, s):
                if r[0] == "goto":
                    work.append((r[1], r[2], False))
                else:
                    res.append(r)
            if len(res) + len(work) > self.max_paths:
                raise Inconclusive(f"path budget exceeded in {fr.key}")
        return res

    def handle_loop(self, fr, head, st, region):
        # 1. constant-trip-count attempt
        out = []
        states = [st]
        ok = False
        for it in range(self.unroll + 1):
            nxt = []
            for s in states:
                for r in self.exec_region(fr, head, s.copy(), region, head):
                    if r[0] == "back":
                        nxt.append(r[2])
                    else:
                        out.append(r)
            states = self.merge_rounds(st, nxt) if self.merge_rounds else nxt
            if not states:
                ok = True
                break
            if it == 0 and (any(r[0] == "exit" and self.returns(fr, r[1]) for r in out) if self.trip_by_exit
                            else self.symbolic_trip(fr, head, region, st, states)):
                break
            if len(states) > self.trip_states:
                break
        if ok:
            return out
        # 2. summarise from a havoc'd head
        lid = (fr.key, head, self.phi_n)
        self.phi_n += 1
        cur = st
        names = {}
        start = st.copy()
        for it in range(12):
            start = start.copy()
            if self.loop_hook:
                self.loop_hook(self, fr, head, start, st)
            self.alts_changed = False
            res = self.exec_region(fr, head, start.copy(), region, head)
            changed = False
            new = start.copy()
            for r in res:
                if r[0] != "back":
                    continue
                for c in list(new.mem):
                    if c not in st.mem:
                        continue
                    a, b = new.mem[c], r[2].mem.get(c, UNINIT)
                    if a is b:
                        continue
                    w = self.widen(r[2], a, b, (lid, c), names)
                    if not (w is a or (type(w) == type(a) and w == a)):
                        new.mem[c] = w
                        changed = True
            if not changed and not self.alts_changed:
                break
            new.facts = st.facts
            new._tab = None
            start = new
        else:
            raise Inconclusive(f"loop did not stabilise in {fr.key}")
        info = LoopInfo(fr.key, head, fr.body["bbs"][head]["sp"], st, start, dict(names))
        self.comprehension(info, [r[2] for r in res if r[0] == "back"])
        inv = self.counter_bounds(info, [r[2] for r in res if r[0] == "back"])
        if inv:
            keep = []
            for r in res:
                s2 = r[1].st if r[0] == "term" else r[2]
                if all(self.possible(s2, p) & m for p, m in inv):
                    if r[0] != "back":
                        for p, m in inv:
                            if self.possible(s2, p) & ~m:
                                self.add_sign(s2, p, m & self.possible(s2, p))
                    keep.append(r)
            res = keep
        out = []
        for r in res:
            if r[0] == "back":
                self.paths += 1
                out.append(("term", Outcome("back", None, r[2], info), None))
            else:
                if r[0] == "exit":
                    r[2].tags = dict(r[2].tags, loops=r[2].tags.get("loops", ()) + (info,))
                if r[0] == "term" and r[1].kind == "ret":
                    r[1].st.tags = dict(r[1].st.tags, loops=r[1].st.tags.get("loops", ()) + (info,))
                out.append(r)
        return out

    def phi_updates(self, info, back):
        """phi name -> (value on entry, value after one iteration)"""
        inv = set(info.phis.values())
        out = {}

        def walk(i, a, b):
            if isinstance(a, Num):
                if len(a.p.t) == 1 and a.p.t[0][0] and len(a.p.t[0][0]) == 1 and a.p.t[0][0][0] in inv and a.p.t[0][1] == 1:
                    out.setdefault(a.p.t[0][0][0], (i, b))
            elif isinstance(a, Opq):
                if a.t in inv:
                    out.setdefault(a.t, (i, b))
            elif isinstance(a, (Adt, Tup, Arr, Clo)):
                for n, x in enumerate(a.f):
                    fi = i.f[n] if isinstance(i, (Adt, Tup, Arr, Clo)) and len(i.f) == len(a.f) else None
                    fb = b.f[n] if isinstance(b, (Adt, Tup, Arr, Clo)) and len(b.f) == len(a.f) else None
                    walk(fi, x, fb)
            elif isinstance(a, Ref):
                for n, x in enumerate(a.pr):
                    if x[0] == "i" and isinstance(b, Ref) and len(b.pr) == len(a.pr) and b.pr[n][0] == "i":
                        u = ("int", "usize", False)
                        iv = Num(i.pr[n][1], u) if isinstance(i, Ref) and len(i.pr) == len(a.pr) and i.pr[n][0] == "i" else None
                        walk(iv, Num(x[1], u), Num(b.pr[n][1], u))
        for c, a in info.start.mem.items():
            if c in info.init.mem and info.init.mem[c] is not a:
                walk(info.init.mem[c], a, back.mem.get(c))
        return out

    def counter_bounds(self, info, backs):
        """inductive bounds of integer counters: list of (polynomial, sign mask) true whenever the loop head is reached"""
        if not backs:
            return []
        ups = [self.phi_updates(info, b) for b in backs]
        names = set(ups[0])
        varying = set()
        for u in ups:
            varying |= set(u)
        for u in ups[1:]:
            names &= set(u)
        occ = re.compile(r"\b(" + "|".join(sorted(map(re.escape, varying))) + r")\b") if varying else None
        out = []
        # counters moving in lock step keep their distance (or sum)
        steady = []
        for n in sorted(names):
            if isinstance(ups[0][n][0], Num) and all(isinstance(u[n][1], Num) for u in ups):
                d = [u[n][1].p - Poly.atom(n, ATOM_TY.get(n)) for u in ups]
                if all(x.is_const() and abs(x.const_val()) <= 1 for x in d) and any(x.const_val() for x in d):
                    steady.append((n, ups[0][n][0].p, [x.const_val() for x in d]))
        for i, (a, ia, da) in enumerate(steady):
            for b, ib, db in steady[i + 1:]:
                xa, xb = Poly.atom(a, ATOM_TY.get(a)), Poly.atom(b, ATOM_TY.get(b))
                if da == db:
                    out.append(((xa - ia) - (xb - ib), ZER))
                elif da == [-x for x in db]:
                    out.append(((xa - ia) + (xb - ib), ZER))
        for n in sorted(names):
            i0 = ups[0][n][0]
            if not isinstance(i0, Num) or i0.ty is None or i0.ty[0] != "int" or not all(isinstance(u[n][1], Num) for u in ups):
                continue
            x = Poly.atom(n, ATOM_TY.get(n))
            steps = [u[n][1].p - x for u in ups]
            if not all(d.is_const() for d in steps):
                continue
            dirs = {(d.const_val() > 0) - (d.const_val() < 0) for d in steps} - {0}
            if len(dirs) != 1:
                continue
            s = dirs.pop()
            out.append(((x - i0.p).scale(s), POS | ZER))
            for k in list(backs[0].facts):
                if not isinstance(k, Poly) or not linear(k) or n not in k.atoms() or len(k.t) > 4:
                    continue
                c = [cc for m, cc in k.t if m == (n,)]
                if not c or abs(c[0]) != 1:
                    continue
                for off in (0, 1):
                    b = x - k.scale(c[0]) - Poly.const(off * s)    # the bound the counter is compared with
                    if any(occ.search(a) for a in b.atoms()):
                        continue
                    g = (b - x).scale(s)
                    if self.possible(info.init, (b - i0.p).scale(s)) & NEG:
                        continue
                    if all(not self.possible(bk, (b - u[n][1].p).scale(s)) & NEG for bk, u in zip(backs, ups)):
                        out.append((g, POS | ZER))
        return out

    def comprehension(self, info, backs):
        """loops that append exactly one element per iteration build a sequence whose length and elements are known"""
        if not backs:
            return
        ups = [self.phi_updates(info, b) for b in backs]
        names = set(ups[0])
        for u in ups[1:]:
            names &= set(u)
        ctr = None
        for n in sorted(names):
            if all(isinstance(u[n][1], Num) and u[n][1].p == Poly.atom(n, ATOM_TY.get(n)) + ONE for u in ups) and isinstance(ups[0][n][0], Num):
                ctr = n
                break
        if ctr is None:
            return
        x = Poly.atom(ctr, ATOM_TY.get(ctr))
        for n in names:
            # in-place update of every element reached
            i0 = ups[0][n][0]
            inf = [self.seqinfo.get(u[n][1].t) if isinstance(u[n][1], Opq) else None for u in ups]
            if isinstance(i0, Opq) and n not in self.seqinfo and all(i and i[0] == "st" and isinstance(i[1], Opq) and i[1].t == n and i[2] == x for i in inf):
                vals = [self.rename(i[3], n, i0.t) for i in inf]
                if all(type(v) == type(vals[0]) and v == vals[0] for v in vals) and vals[0] is not None:
                    self.seqinfo[n] = ("upd", i0, ctr, ups[0][ctr][0].p, vals[0])
            vs = []
            for u in ups:
                b = u[n][1]
                i = self.seqinfo.get(b.t) if isinstance(b, Opq) else None
                if not i or i[0] != "push" or not isinstance(i[1], Opq) or i[1].t != n:
                    vs = None
                    break
                vs.append(i[2])
            if vs and ups[0][n][0] is not None and n not in self.seqinfo:
                init = ups[0][n][0]
                same = all(type(v) == type(vs[0]) and v == vs[0] for v in vs)
                self.seqinfo[n] = ("comp", init, ctr, ups[0][ctr][0].p, vs[0] if same else None)

    def rename(self, v, old, new):
        """v with the sequence `old` replaced by `new`, or None when not expressible"""
        rx = re.compile(r"\b" + re.escape(old) + r"\[")
        occ = re.compile(r"\b" + re.escape(old) + r"\b")

        def term(t):
            t2 = rx.sub(lambda m: new + "[", t)
            return None if occ.search(t2) else t2
        if isinstance(v, Num):
            env = {}
            for a in v.p.atoms():
                t = term(a)
                if t is None:
                    return None
                if t != a:
                    env[a] = Poly.atom(t, ATOM_TY.get(a))
            return Num(v.p.subst(env), v.ty, v.w) if env else v
        if isinstance(v, (Adt, Tup, Arr)):
            f = [self.rename(x, old, new) for x in v.f]
            if any(x is None for x in f):
                return None
            return Adt(v.path, v.v, f, v.ty) if isinstance(v, Adt) else Tup(f) if isinstance(v, Tup) else Arr(f, v.kind)
        if isinstance(v, Opq):
            t = term(v.t)
            return None if t is None else v if t == v.t else Opq(t, v.ty)
        return v if isinstance(v, bool) else None

    def subst_val(self, v, name, p):
        """v with atom `name` replaced, or None when the replacement is not expressible"""
        occ = re.compile(r"\b" + re.escape(name) + r"\b")

        def term(t):
            t2 = t.replace(f"[{name}]", f"[{p}]")
            return None if occ.search(t2) else t2
        if isinstance(v, Num):
            env = {}
            for a in v.p.atoms():
                if a == name:
                    env[a] = p
                elif occ.search(a):
                    t = term(a)
                    if t is None:
                        return None
                    env[a] = Poly.atom(t, ATOM_TY.get(a))
            return Num(v.p.subst(env), v.ty, v.w) if env else v
        if isinstance(v, (Adt, Tup, Arr)):
            f = [self.subst_val(x, name, p) for x in v.f]
            if any(x is None for x in f):
                return None
            return Adt(v.path, v.v, f, v.ty) if isinstance(v, Adt) else Tup(f) if isinstance(v, Tup) else Arr(f, v.kind)
        if isinstance(v, Opq):
            t = term(v.t)
            return None if t is None else v if t == v.t else Opq(t, v.ty)
        if isinstance(v, Ref) and all(x[0] == "." or x[0] == "i" for x in v.pr) and not any(x[0] == "i" and any(occ.search(a) and a != name for a in x[1].atoms()) for x in v.pr):
            return Ref(v.c, tuple(("i", x[1].subst({name: p})) if x[0] == "i" and name in x[1].atoms() else x for x in v.pr), v.m)
        return v if isinstance(v, bool) else None

    def symbolic_trip(self, fr, head, region, st, states):
        """True when a back-edge state learned an open-ended bound, i.e. the loop is clearly not
        constant-trip: some symbolic length or opaque iterator decided the exit."""
        if self.fixed_sizes:
            return False
        for s in states:
            for k, v in s.facts.items():
                if k in st.facts:
                    continue
                if isinstance(k, Poly):
                    if any("len(" in a for a in k.atoms()):
                        return True
                elif k[0] in ("variant", "bool"):
                    return True
        return False

    def phi(self, names, k, ty):
        if k not in names:
            self.fresh_n += 1
            names[k] = f"phi{self.fresh_n}"
        return names[k]

    def widen(self, st, a, b, k, names):
        if a is b:
            return a
        if a is UNINIT or b is UNINIT:
            return UNINIT
        if type(a) == type(b) and a == b:
            return a
        if isinstance(a, Opq) and a.t in names.values() and not (a.t in self.alts and isinstance(b, Adt)):
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if len(a.p.t) == 1 and a.p.t[0][0] and a.p.t[0][0][0] in names.values() and len(a.p.t[0][0]) == 1:
                return a
            n = self.phi(names, k, a.ty)
            return Num(Poly.atom(n, a.ty or b.ty), a.ty or b.ty)
        if isinstance(a, bool) or isinstance(b, bool):
            return Opq(self.phi(names, k, None), ("bool",))
        if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path and a.v == b.v:
            return Adt(a.path, a.v, [self.widen(st, x, y, (k, i), names) for i, (x, y) in enumerate(zip(a.f, b.f))], a.ty)
        if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
            n = self.phi(names, k, None)
            self.alts[n] = {a.v: a, b.v: b}
            self.alts_changed = True
            ta, tb = a.ty, b.ty
            return Opq(n, ta if complete(ta) or tb is None else tb)
        if isinstance(a, Opq) and a.t in self.alts and isinstance(b, Adt):
            t = self.alts[a.t]
            if b.v not in t:
                t[b.v] = b
                self.alts_changed = True
            else:
                w = self.widen(st, t[b.v], b, (k, "alt", b.v), names)
                if w != t[b.v]:
                    t[b.v] = w
                    self.alts_changed = True
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.f) == len(b.f):
            return Tup([self.widen(st, x, y, (k, i), names) for i, (x, y) in enumerate(zip(a.f, b.f))])
        if isinstance(a, Clo) and isinstance(b, Clo) and a.key == b.key:
            return Clo(a.key, [self.widen(st, x, y, (k, i), names) for i, (x, y) in enumerate(zip(a.f, b.f))])
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.f) == len(b.f):
            return Arr([self.widen(st, x, y, (k, i), names) for i, (x, y) in enumerate(zip(a.f, b.f))], a.kind)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.c == b.c and len(a.pr) == len(b.pr):
                pr, ok = [], True
                for i, (x, y) in enumerate(zip(a.pr, b.pr)):
                    if x == y:
                        pr.append(x)
                    elif x[0] == y[0] == "i":
                        w = self.widen(st, Num(x[1], ("int", "usize", False)), Num(y[1], ("int", "usize", False)), (k, i), names)
                        pr.append(("i", w.p))
                    else:
                        ok = False
                if ok:
                    return Ref(a.c, pr)
            try:
                t = self.typeof(self.load(st, a.c, a.pr))
            except Inconclusive:
                t = None
            return Opq(self.phi(names, k, None), ("ref", t, False))
        ta, tb = self.typeof(a), self.typeof(b)
        return Opq(self.phi(names, k, None), ta if complete(ta) or tb is None else tb)

    # ------------------------------------------------------------------ blocks
    def exec_block(self, fr, bb, st):
        b = fr.body["bbs"][bb]
        states = [st]
        for s in b["s"]:
            nxt = []
            for x in states:
                nxt.extend(self.stmt(fr, s, x))
            states = nxt
            self.steps += len(states)
        if self.steps > self.max_steps:
            raise Inconclusive("step budget exceeded")
        in_time()
        out = []
        for x in states:
            out.extend(self.term(fr, b, x))
        return out

    def stmt(self, fr, s, st):
        k = s[0]
        if k == "=":
            outs = []
            fr.sp = s[3]
            for v, x in self.rvalue(fr, s[2], st):
                c, pr = self.resolve(fr, s[1], x)
                self.store(x, c, pr, v)
                outs.append(x)
            return outs
        if k == "live":
            return [st]
        if k == "dead":
            # references into it cannot be live per borrowck; its value only matters to the comparison of rounds
            if self.merge_rounds:
                st.mem[fr.cells[s[1]]] = UNINIT
            return [st]
        if k == "setd":
            c, pr = self.resolve(fr, s[1], st)
            v = self.load(st, c, pr)
            if isinstance(v, Adt):
                self.store(st, c, pr, Adt(v.path, s[2], v.f, v.ty))
            return [st]
        return [st]

    def rvalue(self, fr, r, st):
        k = r[0]
        if k == "use":
            return [(self.operand(fr, r[1], st), st)]
        if k == "ref" or k == "addr":
            c, pr = self.resolve(fr, r[2], st)
            # re-borrow through an index projection stays a location
            return [(Ref(c, pr, r[1] not in (False, "Const")), st)]
        if k == "agg":
            ops = [self.operand(fr, o, st) for o in r[2]]
            a = r[1]
            if a["k"] == "tuple":
                return [(Tup(ops), st)]
            if a["k"] == "array":
                return [(Arr(ops), st)]
            if a["k"] == "adt":
                if a["p"] in TRANSPARENT and ops and isinstance(ops[0], Num):
                    return [(Num(ops[0].p, ("adt", a["p"], a["a"])), st)]
                if a["u"] >= 0:
                    return [(ops[0], st)]
                return [(Adt(a["p"], a["v"], ops, ("adt", a["p"], a["a"])), st)]
            if a["k"] == "closure":
                return [(Clo(a["key"], ops), st)]
            if a["k"] == "rawptr":
                return [(ops[0], st)]
            raise Inconclusive("aggregate")
        if k == "repeat":
            v = self.operand(fr, r[1], st)
            n = r[2]
            n = self.N if isinstance(n, str) else n
            return [(Arr([v] * n), st)]
        if k == "discr":
            c, pr = self.resolve(fr, r[1], st)
            v = self.deref(st, self.load(st, c, pr))
            if isinstance(v, Opq) and v.ty is None:
                v = Opq(v.t, r[2])
            if isinstance(v, (Num, bool)):
                return [(v if isinstance(v, Num) else Num(Poly.const(int(v))), st)]
            out = []
            for i, x in self.variants(st, v):
                out.append((Num(Poly.const(self.discr(v, i)), ("int", "isize", True)), x))
            return out
        if k == "cast":
            return self.cast(fr, r, st)
        if k == "bin":
            a, b = self.operand(fr, r[2], st), self.operand(fr, r[3], st)
            return self.binop(r[1], a, b, r[4], st)
        if k == "un":
            return self.unop(r[1], self.operand(fr, r[2], st), r[3], st)
        raise Inconclusive(f"rvalue {r}")

    def discr(self, v, i):
        path = v.path if isinstance(v, Adt) else None
        if path is None:
            t = v.ty
            while t[0] == "ref":
                t = t[1]
            path = t[1]
        a = self.prog.adts.get(path)
        if a is None:
            return i
        d = int(a["variants"][i]["d"])
        if path == ORD and d > 127:
            d -= 256
        elif d >= 1 << 63:
            d -= 1 << 64
        return d

    def unop(self, op, v, ty, st):
        v = self.deref(st, v) if op != "PtrMetadata" else v
        if op == "Not":
            if isinstance(v, bool):
                return [(not v, st)]
            if isinstance(v, Opq):
                return [(not b, x) for b, x in self.ask_bool(st, v)]
            return [(self.bitop("Not", [v], ty), st)]
        if op == "Neg":
            if isinstance(v, Num):
                return [(self.num_neg(st, v), st)]
        if op == "PtrMetadata":
            return [(Num(self.seq_len(st, v), ("int", "usize", False)), st)]
        raise Inconclusive(f"unop {op} {v!r}")

    def num_neg(self, st, v):
        return Num(-v.p, v.ty)

    def bitop(self, op, vs, ty):
        return Num(Poly.atom(f"{op}({','.join(map(repr, vs))})", ty), ty)

    CMP = {"Eq": ZER, "Ne": NEG | POS, "Lt": NEG, "Le": NEG | ZER, "Gt": POS, "Ge": POS | ZER}

    def binop(self, op, a, b, ty, st):
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, Opq) and a.ty == ("addr",):
            # compiler-inserted alignment / null checks on raw pointers
            if op == "BitAnd":
                return [(Num(ZERO, ("int", "usize", False)), st)]
            if op in ("Eq", "Ne"):
                return [(op == "Ne", st)]
        if op in self.CMP:
            if isinstance(a, bool) or isinstance(b, bool):
                out = []
                for x, s1 in self.ask_bool(st, a):
                    for y, s2 in self.ask_bool(s1, b):
                        r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                        out.append((r, s2))
                return out
            if isinstance(a, Num) and isinstance(b, Num):
                a, b = self.exact(a), self.exact(b)
                return self.test(st, a.p - b.p, self.CMP[op])
            if isinstance(a, Opq) and isinstance(b, Opq) and ty is not None and ty[0] == "bool":
                out = []
                for x, s1 in self.ask_bool(st, a):
                    for y, s2 in self.ask_bool(s1, b):
                        out.append(({"Eq": x == y, "Ne": x != y}[op], s2))
                return out
            if a == b and op in ("Eq", "Ne"):
                return [(op == "Eq", st)]
            t = f"{op}({self.key(st, a)},{self.key(st, b)})"
            return self.ask_bool(st, Opq(t, ("bool",)))
        if op == "Cmp":
            if isinstance(a, Num) and isinstance(b, Num):
                a, b = self.exact(a), self.exact(b)
                return [(ordv(s), x) for s, x in self.signs(st, a.p - b.p)]
            raise Inconclusive("Cmp")
        if op in ("BitAnd", "BitOr", "BitXor"):
            if ty is not None and ty[0] == "bool" or isinstance(a, bool) or isinstance(b, bool):
                out = []
                for x, s1 in self.ask_bool(st, a):
                    for y, s2 in self.ask_bool(s1, b):
                        out.append(({"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[op], s2))
                return out
        if not (isinstance(a, Num) and isinstance(b, Num)):
            if op == "Offset":
                return [(a, st)]
            raise Inconclusive(f"binop {op} on {a!r}, {b!r}")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            return self.arith(base, a, b, ty, st, with_ov="WithOverflow" in op)
        if base in ("Div", "Rem"):
            return self.divrem(base, a, b, ty, st)
        if a.p.is_const() and b.p.is_const():
            x, y = a.p.const_val(), b.p.const_val()
            w = INT_BITS.get(ty[1], 64) if ty and ty[0] == "int" else 64
            m = (1 << w) - 1
            r = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: (x << y) & m if not (ty and ty[2]) else x << y, "Shr": lambda: x >> y}[base]()
            return [(Num(Poly.const(r), ty), st)]
        if base == "Shl" and b.p.is_const():
            pass
        return [(self.bitop(base, [a, b], ty), st)]

    def exact(self, a):
        if a.w is not None:
            return Num(Poly.atom(f"wrap{a.w}({a.p})", a.ty), a.ty)
        return a

    def prelude_key(self, name):
        for k in self.prog.by_path.get("prelude::" + name, []):
            return k
        raise Inconclusive(f"prelude function {name} missing")

    def wrapping(self, p, ty, st):
        return [(Num(Poly.atom(f"wrap_{ty[1]}({p})", ty), ty), st)] if not p.is_const() else [(Num(p, ty), st)]

    def overflowing(self, op, a, b, ty, st):
        p = a.p + b.p if op == "Add" else a.p - b.p if op == "Sub" else a.p * b.p
        return [(Tup([Num(p, ty), Opq(f"ovf_{ty[1]}({p})", ("bool",))]), st)]

    def retag(self, v, st):
        return v

    # --- arithmetic (overridden in strict mode by strict.py) -----------------
    def arith(self, op, a, b, ty, st, with_ov=False):
        a, b = self.exact(a), self.exact(b)
        p = a.p + b.p if op == "Add" else a.p - b.p if op == "Sub" else a.p * b.p
        v = Num(p, ty if ty is not None else a.ty)
        if with_ov:
            # outside strict mode overflow is a checked panic: only the non-overflowing value continues
            if op == "Sub" and ty is not None and ty[0] == "int" and not ty[2]:
                m = self.possible(st, p)
                if m == NEG:
                    return [(Tup([v, True]), st)]
                if m & NEG and not p.is_const():
                    st = st.copy()
                    self.add_sign(st, p, POS | ZER)
            return [(Tup([v, False]), st)]
        return [(v, st)]

    def divrem(self, op, a, b, ty, st):
        if a.p.is_const() and b.p.is_const() and b.p.const_val() != 0 and ty and ty[0] == "int":
            x, y = a.p.const_val(), b.p.const_val()
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return [(Num(Poly.const(q if op == "Div" else x - q * y), ty), st)]
        if ty is not None and ty[0] == "int":
            st = st.copy()
            t = f"idiv({a.p};{b.p})"
            q = Poly.atom(t, ty)
            if b.p.is_const() and b.p.const_val() > 0 and not ty[2]:
                k = b.p.const_val()
                self.add_sign(st, a.p - q.scale(k), POS | ZER)
                self.add_sign(st, q.scale(k) + Poly.const(k - 1) - a.p, POS | ZER)
            if op == "Div":
                return [(Num(q, ty), st)]
            if not b.p.is_const():
                # rem by a symbolic modulus: idx % len; exact when 0 <= a < 2b
                m = self.possible(st, a.p - b.p)
                out = []
                if self.possible(st, a.p) & NEG == 0 and not ty[2]:
                    for t1, s1 in self.test(st, a.p - b.p, NEG):
                        if t1:
                            out.append((Num(a.p, ty), s1))
                        elif self.possible(s1, a.p - b.p) == ZER:
                            out.append((Num(ZERO, ty), s1))
                        else:
                            for t2, s2 in self.test(s1, a.p - b.p - b.p, NEG):
                                if t2:
                                    out.append((Num(a.p - b.p, ty), s2))
                                else:
                                    r = Poly.atom(f"irem({a.p};{b.p})", ty)
                                    s2 = s2.copy()
                                    self.add_sign(s2, b.p - r, POS)
                                    out.append((Num(r, ty), s2))
                    return out
            else:
                k = b.p.const_val()
                r = a.p - q.scale(k)
                return [(Num(r, ty), st)]
            return [(Num(Poly.atom(f"irem({a.p};{b.p})", ty), ty), st)]
        if op == "Div":
            if b.p.t == ():
                return [(Num(Poly.atom(f"quot({a.p};0)", ty), a.ty), st)]
            q = a.p * inverse(b.p)
            self.divisions.append((a.p, b.p, q, a.ty))
            return [(Num(q, a.ty), st)]
        return [(Num(Poly.atom(f"rem({a.p};{b.p})", ty), a.ty), st)]

    def cast(self, fr, r, st):
        k, o, ty, src = r[1], r[2], r[3], r[4]
        if k == "BoxDerefTransmute" and o[0] in ("cp", "mv"):
            b = self.operand(fr, (o[0], (o[1][0], ())), st)
            if isinstance(b, Opq):
                if ("d", b.t) not in st.mem:
                    st.mem[("d", b.t)] = UNINIT
                return [(Ref(("d", b.t), (), True), st)]
        v = self.operand(fr, o, st)
        if ty is not None and ty[0] == "int" and src is not None and (src[0] in ("ptr", "ref") or (src[0] == "adt" and k not in ("IntToInt",) and not isinstance(v, (Num, bool)))):
            return [(Opq("addr", ("addr",)), st)]
        if k == "IntToInt":
            v = self.deref(st, v)
            if isinstance(v, bool):
                return [(Num(Poly.const(int(v)), ty), st)]
            if isinstance(v, Opq) and v.ty == ("bool",):
                return [(Num(Poly.const(int(b)), ty), x) for b, x in self.ask_bool(st, v)]
            if isinstance(v, Adt):
                return [(Num(Poly.const(self.discr(v, v.v)), ty), st)]
            if isinstance(v, Opq):
                return [(Num(Poly.const(self.discr(v, i)), ty), x) for i, x in self.variants(st, v)]
            return self.int_cast(v, src, ty, st)
        if k == "FloatToFloat":
            v = self.deref(st, v)
            if src[1] == ty[1] or (src[1] in ("f16", "f32") and ty[1] == "f64"):
                return [(Num(v.p, ty), st)]
            return [(Num(Poly.atom(f"round_{ty[1]}({v.p})", ty), ty), st)]
        if k in ("IntToFloat", "FloatToInt"):
            v = self.deref(st, v)
            if k == "IntToFloat" and v.p.is_const():
                return [(Num(v.p, ty), st)]
            exactw = {"f64": 53, "f32": 24}
            if k == "IntToFloat" and INT_BITS[src[1]] <= exactw.get(ty[1], 0):
                return [(Num(v.p, ty), st)]
            return [(Num(Poly.atom(f"{k}_{ty[1]}({v.p})", ty), ty), st)]
        return [(v, st)]

    def int_cast(self, v, src, ty, st):
        bits = lambda t: INT_BITS.get(t[1], 64) if t is not None and t[0] == "int" else None
        a, b = bits(src if src is not None and src[0] == "int" else v.ty), bits(ty)
        if a is not None and b is not None and b < a and not v.p.is_const():
            lo, hi = int_range(ty)
            l, h = self.lower(st, v.p), self.lower(st, -v.p)
            if l is None or h is None or l[0] < lo or -h[0] > hi:
                # a narrowing cast keeps the low bits only
                return [(Num(Poly.atom(f"wrap_{ty[1]}({v.p})", ty), ty), st)]
        return [(Num(v.p, ty), st)]

    # ------------------------------------------------------------------ terminators
    def term(self, fr, b, st):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [("goto", t[1], st)]
        if k == "ret":
            self.paths += 1
            return [("term", Outcome("ret", st.mem[fr.cells[0]] if st.mem[fr.cells[0]] is not UNINIT else UNIT, st), None)]
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "drop":
            return [("goto", t[2], st)]
        if k == "assert":
            return self.assert_(fr, t, st, b)
        if k == "call":
            fr.sp = b["sp"]
            return self.call_term(fr, t, st, b)
        if k == "unreachable":
            return []
        if k == "unwind":
            return []
        raise Inconclusive(f"terminator {t}")

    def switch(self, fr, t, st):
        v = self.deref(st, self.operand(fr, t[1], st))
        out = []
        if isinstance(v, Opq) and (t[4] == ("bool",) or v.ty == ("bool",)):
            for b, x in self.ask_bool(st, v):
                out += self.switch_to(t, int(b), x)
            return out
        if isinstance(v, bool):
            return self.switch_to(t, int(v), st)
        if isinstance(v, Num):
            if v.p.is_const():
                c = v.p.const_val()
                if c < 0:
                    w = INT_BITS.get(t[4][1], 64) if t[4][0] == "int" else 64
                    # discriminants are printed as unsigned of their own width
                    return self.switch_to(t, c, st, alt=[c + (1 << x) for x in {w, 8, 16, 32, 64, 128}])
                return self.switch_to(t, c, st)
            cur = st
            for val, tg in t[2]:
                nxt = None
                for b, x in self.test(cur, v.p - Poly.const(val), ZER):
                    if b:
                        out.append(("goto", tg, x))
                    else:
                        nxt = x
                if nxt is None:
                    return out
                cur = nxt
            out.append(("goto", t[3], cur))
            return out
        raise Inconclusive(f"switch on {v!r} in {fr.key}")

    def switch_to(self, t, c, st, alt=()):
        for val, tg in t[2]:
            if val == c or val in alt:
                return [("goto", tg, st)]
        return [("goto", t[3], st)]

    def assert_(self, fr, t, st, b):
        kind = t[3]
        if kind == "bounds":
            # in-bounds afterwards; out-of-bounds is a checked panic
            ln = self.deref(st, self.operand(fr, t[5][0], st))
            ix = self.deref(st, self.operand(fr, t[5][1], st))
            if isinstance(ln, Num) and isinstance(ix, Num):
                m = self.possible(st, ix.p - ln.p)
                if m & NEG == 0:
                    return [("term", Outcome("panic", "bounds", st, b["sp"]), None)]
                st = st.copy()
                self.add_sign(st, ix.p - ln.p, NEG)
            return [("goto", t[4], st)]
        cond = self.deref(st, self.operand(fr, t[1], st))
        out = []
        for c, x in self.ask_bool(st, cond):
            if c == t[2]:
                out.append(("goto", t[4], x))
            else:
                out.append(("term", Outcome("panic", kind, x, (fr.key, b["sp"])), None))
        return out

    def call_term(self, fr, t, st, b):
        f = self.operand(fr, t[1], st)
        args = [self.operand(fr, a, st) for a in t[2]]
        dty = fr.body["locals"][t[3][0]] if not t[3][1] else None
        self.calls_seen += 1
        outs = self.call(f, args, st, dty, fr, b["sp"])
        res = []
        for o in outs:
            if o.kind == "ret":
                if t[4] < 0:
                    res.append(("term", Outcome("panic", "diverges", o.st, (fr.key, b["sp"])), None))
                    continue
                x = o.st
                c, pr = self.resolve(fr, t[3], x)
                if x is st:
                    x = st.copy()
                self.store(x, c, pr, o.val)
                res.append(("goto", t[4], x))
            else:
                res.append(("term", o, None))
        return res

    # ------------------------------------------------------------------ calls
    def call(self, f, args, st, dty=None, fr=None, sp=None):
        depth = (fr.depth if fr else 0) + 1
        if isinstance(f, Ref):
            f2 = self.deref(st, f)
            return self.call_value(f2, f, args, st, dty, fr, sp)
        if not isinstance(f, FnV):
            return self.call_value(f, None, args, st, dty, fr, sp)
        c = f.c
        p = c["p"]
        rp = c.get("rp")
        for q in (rp, p):
            if q in self.overrides:
                r = self.overrides[q](self, st, args, c, dty, fr, sp)
                if r is not None:
                    return self.norm(r)
        # closures / fn traits
        if p in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once"):
            tup = self.deref(st, args[1])
            a = list(tup.f) if isinstance(tup, Tup) else [tup]
            return self.call_value(self.deref(st, args[0]), args[0], a, st, dty, fr, sp)
        r = c.get("r")
        if r in self.prog.fns and self.prog.fns[r]["local"] and self.prog.fns[r]["kind"] != "Ctor":
            k = c.get("rk", "Item")
            if k == "Item":
                return self.exec_fn(r, args, st, depth)
        for q in (rp, p):
            m = self.models.get(q)
            if m is not None:
                x = m(self, st, args, c, dty, fr, sp)
                if x is not None:
                    return self.norm(x)
        # constructor functions (tuple structs / variants used as functions)
        cv = self.ctor(p, args, dty, c)
        if cv is not None:
            return [Outcome("ret", cv, st)]
        if r in self.prog.fns and c.get("rk", "Item") == "Item" and self.prog.fns[r]["crate"] in ("core", "prelude"):
            return self.exec_fn(r, args, st, depth)
        # dynamic dispatch of trait methods on the abstract value's own type
        if "trait" in c and args:
            k = self.dispatch(c["trait"], c["name"], args, st)
            if k is not None:
                return self.exec_fn(k, args, st, depth)
        return self.unknown_call(c, args, st, dty, fr, sp)

    def norm(self, r):
        out = []
        for x in r:
            if isinstance(x, Outcome):
                out.append(x)
            else:
                out.append(Outcome("ret", x[0], x[1]))
        return out

    def ctor(self, p, args, dty, c):
        a = self.prog.adts.get(p)
        if a and a["kind"] == "Struct" and len(a["variants"][0]["f"]) == len(args):
            ty = dty if dty and dty[0] == "adt" else ("adt", p, ())
            if p in TRANSPARENT:
                return args[0]
            return Adt(p, 0, args, ty)
        if "::" in p:
            par, vn = p.rsplit("::", 1)
            par0 = par.split("::<")[0]
            for q in (par, par0):
                a = self.prog.adts.get(q)
                if a and a["kind"] == "Enum":
                    for i, v in enumerate(a["variants"]):
                        if v["n"] == vn and len(v["f"]) == len(args):
                            return Adt(q, i, args, dty if dty and dty[0] == "adt" else ("adt", q, ()))
        return None

    def dispatch(self, trait, name, args, st):
        v = args[0]
        cands = self.prog.impl_index.get((trait, name), [])
        tries = []
        x = v
        for _ in range(6):
            tries.append(x)
            if isinstance(x, Ref):
                x = self.load(st, x.c, x.pr)
            else:
                break
        for x in reversed(tries):
            path = None
            if isinstance(x, Adt):
                path = x.path
            elif isinstance(x, Opq) and x.ty:
                t = x.ty
                while t and t[0] == "ref":
                    t = t[1]
                if t and t[0] == "adt":
                    path = t[1]
            if path is None:
                continue
            ks = [k for (s, ta, k) in cands if s[0] == "adt" and s[1] == path]
            if len(ks) == 1:
                return ks[0]
            if len(ks) > 1 and len(args) > 1:
                # choose by the trait's type argument
                y = self.deref(st, args[1])
                yp = y.path if isinstance(y, Adt) else (y.ty[1] if isinstance(y, Opq) and y.ty and y.ty[0] == "adt" else None)
                k2 = [k for (s, ta, k) in cands if s[0] == "adt" and s[1] == path and len(ta) > 1 and ta[1][0] == "adt" and ta[1][1] == yp]
                if len(k2) == 1:
                    return k2[0]
        ks = self.prog.impl_index.get((trait, name, "default"), [])
        if len(ks) == 1 and cands:
            return ks[0]
        return None

    def call_value(self, f, fref, args, st, dty, fr, sp):
        depth = (fr.depth if fr else 0) + 1
        if isinstance(f, FnV):
            return self.call(f, args, st, dty, fr, sp)
        if isinstance(f, Clo):
            if f.key not in self.prog.fns:
                raise Inconclusive(f"closure body missing {f.key}")
            body = self.prog.body(f.key)
            t1 = body["locals"][1]
            if t1[0] == "ref":
                if not isinstance(fref, Ref):
                    st = st.copy()
                    fref = Ref(self.new_cell(st, f))
                # strip extra reference levels
                v = self.load(st, fref.c, fref.pr)
                while isinstance(v, Ref):
                    fref = v
                    v = self.load(st, fref.c, fref.pr)
                return self.exec_fn(f.key, [fref] + list(args), st, depth)
            return self.exec_fn(f.key, [f] + list(args), st, depth)
        if isinstance(f, (Opq, Num)):
            nm = f.t if isinstance(f, Opq) else repr(f.p)
            if nm == "zstclosure" and f.ty[0] == "closure":
                for k, fn in self.prog.fns.items():
                    if fn["kind"] == "Closure" and fn["path"] == f.ty[1]:
                        return self.call_value(Clo(k, ()), None, args, st, dty, fr, sp)
            t = f"{nm}({','.join(self.key(st, a) for a in args)})"
            st = st.copy()
            st.event(("callfn", nm, tuple(args), t))
            return [Outcome("ret", self.mk(t, dty), st)]
        raise Inconclusive(f"call of {f!r}")

    def unknown_call(self, c, args, st, dty, fr, sp):
        p = c.get("rp") or c["p"]
        self.unknown[p] = self.unknown.get(p, 0) + 1
        t = f"{short(p)}({','.join(self.key(st, a) for a in args)})"
        st = st.copy()
        st.event(("call", p, tuple(args), t, sp))
        mut = False
        for i, a in enumerate(args):
            mut |= self.havoc_mut(st, a, f"{t}!{i}")
        if mut:
            t = self.fresh(f"{short(p)}#")
        return [Outcome("ret", self.mk(t, dty), st)]

    def havoc_mut(self, st, v, tag, depth=0):
        """an unmodelled callee may write through every mutable reference it receives"""
        if depth > 6:
            return False
        r = False
        if isinstance(v, Ref):
            if v.m:
                old = self.load(st, v.c, v.pr)
                self.store(st, v.c, v.pr, self.mk(self.fresh("hv") + tag[:60], self.typeof(old)))
                return True
            return False
        if isinstance(v, (Adt, Tup, Clo)):
            for x in v.f:
                r |= self.havoc_mut(st, x, tag, depth + 1)
        return r

    # ------------------------------------------------------------------ entry
    def run(self, key, args=None, st=None):
        st = st or State()
        f = self.prog.fns[key]
        if args is None:
            body = self.prog.body(key)
            args = []
            for i in range(body["argc"]):
                nm = body["names"].get(i + 1, f"a{i}")
                args.append(self.mkdeep(st, nm, body["locals"][i + 1]))
        self.steps = 0
        try:
            return self.exec_fn(key, args, st, 0)
        except (IndexError, KeyError, TypeError, AttributeError, ValueError, AssertionError) as x:
            # a construct the interpreter was not written for: this obligation is undecided, the others stand
            if os.environ.get("RGA_TRACE"):
                raise
            raise Inconclusive(f"analysis stopped: {type(x).__name__}: {x}"[:200])


class Frame:
    __slots__ = ("key", "body", "cells", "depth", "sp")

    def __init__(self, key, body, depth):
        self.key, self.body, self.depth = key, body, depth
        self.cells = []
        self.sp = None


def short(p):
    return p.split("::")[-1]


def complete(t):
    if t is None:
        return False
    if t[0] == "adt":
        return all(complete(x) if isinstance(x, tuple) else x is not None for x in t[2])
    if t[0] in ("ref", "slice", "array"):
        return complete(t[1])
    return True
