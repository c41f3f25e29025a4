"""Compositional contracts: callee summaries used while analysing callers.

Each contract is itself decided by another check (named in the comment); using the summary keeps the
number of path partitions of a caller independent of the callee's internals.
"""
from poly import Poly
from values import *
from engine import Outcome, ordv, some, none, ORD, OPTION


def rank(eng, st, v):
    return Poly.atom(f"rank<{eng.key(st, eng.deref(st, v))}>")


def _cmp(eng, st, args, c, dty, fr, sp):
    a, b = args
    return [(ordv(s), s2) for s, s2 in eng.signs(st, rank(eng, st, a) - rank(eng, st, b))]


def _pcmp(eng, st, args, c, dty, fr, sp):
    return [(some(ordv(s), ("adt", ORD, ())), s2) for s, s2 in eng.signs(st, rank(eng, st, args[0]) - rank(eng, st, args[1]))]


def _eq(eng, st, args, c, dty, fr, sp):
    t = eng.test(st, rank(eng, st, args[0]) - rank(eng, st, args[1]), ZER)
    if c["name"] == "ne":
        t = [(not b, s) for b, s in t]
    return t


POINT = "rgeometry::data::point::Point"


def keys_for(prog, trait, method, path):
    return [k for s, ta, k in prog.impl_index.get((trait, method), []) if s[0] == "adt" and s[1] == path and (len(ta) < 2 or ta[1][0] != "adt" or ta[1][1] == path)]


def point_order(eng):
    """Points compare by an abstract rank (Point's Ord is a total order consistent with equality: C19)."""
    P = eng.prog
    n = 0
    for tr, m, f in (("core::cmp::Ord", "cmp", _cmp), ("core::cmp::PartialOrd", "partial_cmp", _pcmp), ("core::cmp::PartialEq", "eq", _eq),
                     ("rgeometry::TotalOrd", "total_cmp", _cmp)):
        for k in keys_for(P, tr, m, POINT):
            for k2 in P.by_path[P.fns[k]["path"]]:
                eng.fn_overrides[k2] = f
            n += 1
    return n
