from geo import *
from spec import Table, Catalogue
from engine import State

LEVEL = "other"
EXPLANATION = ("Every path partition of the orientation constructors, combinators and simulation-of-simplicity functions is enumerated from "
               "MIR by a path-partitioned abstract interpretation and compared, row by row, with the sign-rule specification "
               "(decision-table equivalence over the finite set of predicate outcomes).")
ASSUMPTIONS = ["scalar predicates mean what C01/C02 decide for each scalar type", "std/num callees behave as documented (rga/models.py)"]


def run(ctx):
    O = R + "orientation::Orientation::"
    S = R + "orientation::SoS::"
    cat3 = Catalogue([x + c for x in "pqr" for c in "xy"], -1, 2)
    catv = Catalogue([x + c for x in ("p", "q", "v") for c in "xy"], -1, 2)

    def t(name, key, mk, spec, cat=None, show=()):
        if key is None:
            return
        eng = ctx.engine()
        st = State()
        Table(ctx, name, key, mk(eng, st), st, spec, cat, show, eng=eng).run()

    p, q, r, v = xy("p"), xy("q"), xy("r"), xy("v")
    t("new: sign of the determinant", ctx.one(O + "new"), lambda e, s: [ref(e, s, arr(n)) for n in "pqr"],
      lambda o, x: expect_enum(o, x, orient_name(o.sign(det(p, q, r)))), cat3, cat3.val)
    t("along_vector: turn from the vector", ctx.one(O + "along_vector"), lambda e, s: [ref(e, s, arr("p")), ref(e, s, vector("v")), ref(e, s, arr("q"))],
      lambda o, x: expect_enum(o, x, orient_name(o.sign(cross(v, sub(q, p))))), catv, catv.val)
    t("along_perp_vector: turn from the perpendicular", ctx.one(O + "along_perp_vector"), lambda e, s: [ref(e, s, arr("p")), ref(e, s, vector("v")), ref(e, s, arr("q"))],
      lambda o, x: expect_enum(o, x, orient_name(o.sign(cross((-v[1], v[0]), sub(q, p))))), catv, catv.val)
    # point wrappers
    Pp = R + "data::point::Point::"
    t("Point::orient", ctx.one(Pp + "orient"), lambda e, s: [ref(e, s, point(n)) for n in "pqr"],
      lambda o, x: expect_enum(o, x, orient_name(o.sign(det(p, q, r)))), cat3, cat3.val)
    t("Point::orient_along_vector", ctx.one(Pp + "orient_along_vector"), lambda e, s: [ref(e, s, point("p")), ref(e, s, vector("v")), ref(e, s, point("q"))],
      lambda o, x: expect_enum(o, x, orient_name(o.sign(cross(v, sub(q, p))))), catv, catv.val)
    t("Point::orient_along_perp_vector", ctx.one(Pp + "orient_along_perp_vector"), lambda e, s: [ref(e, s, point("p")), ref(e, s, vector("v")), ref(e, s, point("q"))],
      lambda o, x: expect_enum(o, x, orient_name(o.sign(cross((-v[1], v[0]), sub(q, p))))), catv, catv.val)
    DIR = R + "data::line::Direction"

    def mkdir_(e, s):
        vr, pr = ref(e, s, vector("v")), ref(e, s, point("r"))
        e.alts["dir"] = {0: Adt(DIR, 0, [vr]), 1: Adt(DIR, 1, [pr])}
        return [ref(e, s, point("p")), Opq("dir", ("adt", DIR, (T, ("const", 2)))), ref(e, s, point("q"))]

    def sdir(o, x):
        if o.vname(Opq("dir", ("adt", DIR, (T, ("const", 2))))) == "Vector":
            return expect_enum(o, x, orient_name(o.sign(cross(v, sub(q, p)))))
        return expect_enum(o, x, orient_name(o.sign(det(p, r, q))))
    catd = Catalogue([x + c for x in ("p", "q", "v", "r") for c in "xy"], 0, 2)
    t("Point::orient_along_direction", ctx.one(Pp + "orient_along_direction"), mkdir_, sdir, catd, catd.val)

    A = opq_enum("a", ORI)
    B = opq_enum("b", ORI)
    SA = opq_enum("s", SOS)
    for nm, w in (("is_colinear", "CoLinear"), ("is_ccw", "CounterClockWise"), ("is_cw", "ClockWise")):
        t(nm, ctx.one(O + nm), lambda e, s: [A], lambda o, x, w=w: expect_bool(o, x, o.vname(A) == w))
    REV = {"CounterClockWise": "ClockWise", "ClockWise": "CounterClockWise", "CoLinear": "CoLinear"}
    t("reverse: an involution fixing colinear", ctx.one(O + "reverse"), lambda e, s: [A], lambda o, x: expect_enum(o, x, REV[o.vname(A)]))
    t("then: first non-colinear wins", ctx.one(O + "then"), lambda e, s: [A, B],
      lambda o, x: expect_enum(o, x, o.vname(B) if o.vname(A) == "CoLinear" else o.vname(A)))
    t("sos: tie-break only when colinear", ctx.one(O + "sos"), lambda e, s: [A, SA],
      lambda o, x: expect_enum(o, x, o.vname(SA) if o.vname(A) == "CoLinear" else o.vname(A)))
    t("SoS::orient", ctx.one(S + "orient"), lambda e, s: [SA], lambda o, x: expect_enum(o, x, o.vname(SA)))
    t("SoS::reverse", ctx.one(S + "reverse"), lambda e, s: [SA], lambda o, x: expect_enum(o, x, REV[o.vname(SA)]))
    U32 = ("int", "u32", False)
    a, b, c = (Poly.atom(n, U32) for n in ("ia", "ib", "ic"))

    def sos3(o, x):
        ab, bc, ca = o.sign(b - a), o.sign(c - b), o.sign(a - c)
        if 0 in (ab, bc, ca):
            return None if x.kind == "panic" else "a panic (indices must be distinct)"
        # sign of the determinant of (i, 2^i): the parity of the permutation sorting (a, b, c)
        return expect_enum(o, x, "CounterClockWise" if ab * bc * ca < 0 else "ClockWise")
    cati = Catalogue(["ia", "ib", "ic"], 0, 4)
    t("SoS::new: antisymmetric in the index order", ctx.one(S + "new"), lambda e, s: [Num(n, U32) for n in (a, b, c)], sos3, cati, cati.val)
    t("break_ties: tie-break by index only when colinear", ctx.one(O + "break_ties"), lambda e, s: [A] + [Num(n, U32) for n in (a, b, c)],
      lambda o, x: sos3(o, x) if o.vname(A) == "CoLinear" else expect_enum(o, x, o.vname(A)), cati, cati.val)
