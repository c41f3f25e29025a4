"""Argument builders and the geometric vocabulary used by the specifications."""
from poly import Poly, ZERO, ONE
from values import *
from engine import State, ORD
import contracts

R = "rgeometry::"
POINT = R + "data::point::Point"
VECTOR = R + "data::vector::Vector"
ENDPOINT = R + "data::line_segment::EndPoint"
LSV = R + "data::line_segment::LineSegmentView"
LS = R + "data::line_segment::LineSegment"
ORI = R + "orientation::Orientation"
SOS = R + "orientation::SoS"
T = ("param", "T")
PT_TY = ("adt", POINT, (T, ("const", 2)))
VEC_TY = ("adt", VECTOR, (T, ("const", 2)))


def at(n, ty=T):
    return Poly.atom(n, ty)


def xy(n, ty=T):
    return (at(n + "x", ty), at(n + "y", ty))


def arr(n, ty=T):
    return Arr([Num(p, ty) for p in xy(n, ty)])


def point(n, ty=T):
    return Adt(POINT, 0, [arr(n, ty)], ("adt", POINT, (ty, ("const", 2))))


def vector(n, ty=T):
    return Adt(VECTOR, 0, [arr(n, ty)], ("adt", VECTOR, (ty, ("const", 2))))


def ref(eng, st, v, m=False):
    return Ref(eng.new_cell(st, v), (), m)


def det(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def cross(v, w):
    return v[0] * w[1] - v[1] * w[0]


def dot(v, w):
    return v[0] * w[0] + v[1] * w[1]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def orient_name(s):
    return {1: "CounterClockWise", -1: "ClockWise", 0: "CoLinear"}[s]


def cmp_name(s):
    return {1: "Greater", -1: "Less", 0: "Equal"}[s]


def lex(o, a, b):
    """sign of the lexicographic comparison of two coordinate pairs"""
    s = o.sign(a[0] - b[0])
    return s if s else o.sign(a[1] - b[1])


def expect_enum(o, outcome, want):
    if outcome.kind != "ret":
        return f"{want}, not a panic"
    got = o.vname(outcome.val)
    return None if got == want else want


def expect_bool(o, outcome, want):
    if outcome.kind != "ret":
        return f"{want}, not a panic"
    v = o.eng.deref(o.st, outcome.val)
    got = o.bool(v) if not isinstance(v, bool) else v
    return None if got == want else str(want)


def opq_enum(term, path, args=()):
    return Opq(term, ("adt", path, args))


PTREF = ("ref", PT_TY, False)


def endpoint(eng, st, n, term, by_ref=True):
    """an end point of unknown openness over the point named n"""
    v = ref(eng, st, point(n)) if by_ref else point(n)
    ty = ("adt", ENDPOINT, (PTREF if by_ref else PT_TY,))
    eng.alts[term] = {0: Adt(ENDPOINT, 0, [v], ty), 1: Adt(ENDPOINT, 1, [v], ty)}
    return Opq(term, ty)


def rk(eng, st, n):
    return contracts.rank(eng, st, point(n))


class Seg:
    """a segment value (minimum a, maximum b) with its specification-side view"""

    def __init__(self, eng, st, a, b, tag, by_ref=True, path=LSV, premise=True):
        self.a, self.b = a, b
        self.ea = endpoint(eng, st, a, tag + ".min", by_ref)
        self.eb = endpoint(eng, st, b, tag + ".max", by_ref)
        self.val = Adt(path, 0, [self.ea, self.eb], ("adt", path, (T, ("const", 2))))
        self.ra, self.rb = rk(eng, st, a), rk(eng, st, b)
        if premise:
            eng.add_sign(st, self.rb - self.ra, POS | ZER)

    def incl(self, o, which):
        return o.vname(self.ea if which == 0 else self.eb) == "Inclusive"


def in_segment(o, eng, seg, n, st=None):
    """point n belongs to the segment (end points according to their openness)"""
    if o.sign(det(xy(seg.a), xy(seg.b), xy(n))) != 0:
        return False
    r = rk(eng, o.st, n)
    s = o.sign(r - seg.ra)
    if s < 0 or (s == 0 and not seg.incl(o, 0)):
        return False
    s = o.sign(seg.rb - r)
    return not (s < 0 or (s == 0 and not seg.incl(o, 1)))


def seg_catalogue(names, grid=(0, 3), maxn=1_200_000, rnd=60000):
    from spec import Catalogue
    c = Catalogue([n + k for n in names for k in "xy"], grid[0], grid[1], maxn=maxn, rnd=rnd)
    for n in names:
        c.rank(f"rank<Point#0([{n}x,{n}y])>", n + "x", n + "y")
    return c
