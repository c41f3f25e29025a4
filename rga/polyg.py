"""Polygon-side argument builders: fields are found by their types, not by their names or order."""
from geo import *
from engine import Inconclusive, State
from spec import strip

PG = R + "data::polygon::"
POLY, CURSOR, POSITION = PG + "Polygon", PG + "Cursor", PG + "Position"
PTID, RINGID, POSID = PG + "PointId", PG + "RingId", PG + "PositionId"
IEDGE, DEDGE = PG + "IndexEdge", PG + "DirectedIndexEdge"
CITER, EITER = PG + "iter::CursorIter", PG + "iter::EdgeIter"
VECP = "alloc::vec::Vec"
USZ = ("int", "usize", False)
POLY_TY = ("adt", POLY, (T,))
CUR_TY = ("adt", CURSOR, (T,))


def vec_of(t):
    return t[2][0] if t is not None and t[0] == "adt" and t[1].endswith("vec::Vec") and t[2] else None


def field_index(P, path, pred, what):
    fs = P.adts[path]["variants"][0]["f"]
    hit = [i for i in range(len(fs)) if pred(P.field_ty(("adt", path, (T,)), 0, i))]
    if len(hit) != 1:
        raise Inconclusive(f"role of the {what} field of {path} is not unique")
    return hit[0]


def is_adt(p):
    return lambda t: t is not None and t[0] == "adt" and t[1] == p


class Poly_:
    """a symbolic polygon behind a reference"""

    def __init__(self, e, st, name="p", mut=False):
        self.e, self.name = e, name
        P = e.prog
        self.ref = e.mkdeep(st, name, ("ref", POLY_TY, mut))
        ip = lambda p: (lambda t: vec_of(t) is not None and is_adt(p)(vec_of(t)))
        self.i_points = field_index(P, POLY, ip(POINT), "points")
        self.i_ringidx = field_index(P, POLY, ip(RINGID), "ring index")
        self.i_posidx = field_index(P, POLY, ip(POSID), "position index")
        self.i_rings = field_index(P, POLY, lambda t: vec_of(t) is not None and vec_of(vec_of(t)) is not None and is_adt(PTID)(vec_of(vec_of(t))), "rings")

    def val(self, st):
        return self.e.deref(st, self.ref)

    def f(self, st, i):
        return self.e.deref(st, self.e.project(st, self.val(st), (".", i)))

    def points(self, st):
        return self.f(st, self.i_points)

    def ringidx(self, st):
        return self.f(st, self.i_ringidx)

    def posidx(self, st):
        return self.f(st, self.i_posidx)

    def rings(self, st):
        return self.f(st, self.i_rings)

    def ring(self, st, r=None):
        return self.e.seq_read(st, self.rings(st), r if r is not None else Poly.const(0))

    def size(self, st, r=None):
        return self.e.seq_len(st, self.ring(st, r))

    def pid(self, st, k, r=None):
        """index number of the vertex at position k"""
        v = self.e.seq_read(st, self.ring(st, r), k)
        return num(self.e, st, v)

    def vertex(self, st, k, r=None):
        return self.e.deref(st, self.e.seq_read(st, self.points(st), self.pid(st, k, r)))


def num(e, st, v):
    """the number inside (nested single-field wrappers of) a value"""
    n = 0
    v = e.deref(st, v)
    while not isinstance(v, Num):
        v = e.deref(st, e.project(st, v, (".", 0)))
        n += 1
        if n > 6:
            raise Inconclusive("not a number")
    return v.p


def wrap(path, p):
    return Adt(path, 0, [Num(p, USZ)], ("adt", path, ()))


def position(e, ring, size, pos):
    P = e.prog
    i_r = field_index(P, POSITION, is_adt(RINGID), "ring")
    i_p = field_index(P, POSITION, is_adt(POSID), "position")
    i_s = field_index(P, POSITION, lambda t: t == USZ, "size")
    f = [None] * 3
    if len(P.adts[POSITION]["variants"][0]["f"]) != 3:
        raise Inconclusive("Position has unknown fields")
    f[i_r], f[i_p], f[i_s] = wrap(RINGID, ring), wrap(POSID, pos), Num(size, USZ)
    return Adt(POSITION, 0, f, ("adt", POSITION, ()))


def position_of(e, st, v):
    """(ring, size, position) numbers of a Position value"""
    P = e.prog
    v = e.deref(st, v)
    i_r = field_index(P, POSITION, is_adt(RINGID), "ring")
    i_p = field_index(P, POSITION, is_adt(POSID), "position")
    i_s = field_index(P, POSITION, lambda t: t == USZ, "size")
    return tuple(num(e, st, e.project(st, v, (".", i))) for i in (i_r, i_s, i_p))


def cursor_parts(P):
    i_poly = field_index(P, CURSOR, lambda t: t[0] == "ref" and is_adt(POLY)(t[1]), "polygon")
    i_pos = field_index(P, CURSOR, is_adt(POSITION), "position")
    if len(P.adts[CURSOR]["variants"][0]["f"]) != 2:
        raise Inconclusive("Cursor has unknown fields")
    return i_poly, i_pos


def cursor(e, st, poly, ring, size, pos):
    i_poly, i_pos = cursor_parts(e.prog)
    f = [None] * 2
    f[i_poly], f[i_pos] = poly.ref, position(e, ring, size, pos)
    return Adt(CURSOR, 0, f, CUR_TY)


def cursor_of(e, st, v):
    """((ring, size, position), value number of the polygon)"""
    v = e.deref(st, v)
    i_poly, i_pos = cursor_parts(e.prog)
    return position_of(e, st, e.project(st, v, (".", i_pos))), e.key(st, e.deref(st, e.project(st, v, (".", i_poly))))


def succ(o, p, n):
    """position after p on a ring of n"""
    return Poly.const(0) if o.sign(n - ONE - p) == 0 else p + ONE


def pred(o, p, n):
    return n - ONE if o.sign(p) == 0 else p - ONE


def same_num(o, a, b):
    return o.sign(a - b) == 0


def coords(e, st, ref_):
    """coordinate normal forms of a point behind a reference"""
    v = e.deref(st, ref_)
    a = e.deref(st, e.project(st, v, (".", 0)))
    return tuple(num(e, st, e.seq_read(st, a, Poly.const(j))) for j in (0, 1))


def read_at(o, e, seq, q):
    """element q of a sequence, deciding on which side of a summarised loop's reach it lies"""
    from poly import ATOM_TY
    v = e.deref(o.st, seq)
    i = e.seqinfo.get(v.t) if isinstance(v, Opq) else None
    while i is not None and i[0] in ("upd",):
        o.sign(q - Poly.atom(i[2], ATOM_TY.get(i[2])))
        v = e.deref(o.st, i[1])
        i = e.seqinfo.get(v.t) if isinstance(v, Opq) else None
    return e.seq_read(o.st, e.deref(o.st, seq), q)
