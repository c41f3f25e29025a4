from geo import *
from spec import Table, Catalogue
from engine import State

LEVEL = "other"
EXPLANATION = ("Decision tables of every public angular/projection/distance comparator are extracted from MIR path partitions and compared row by "
               "row with the angular-order specification (angle class, then turn); antisymmetry and transitivity follow from the specification.")
ASSUMPTIONS = ["scalar predicates mean what C01/C02 decide for each scalar type", "std/num callees behave as documented (rga/models.py)",
               "candidate mismatches are reported when inhabited by the configuration catalogue (all 3^8 small integer configurations plus a fixed random sample)"]


def ang_class(o, z, w):
    """0: along z (or degenerate), 1: strictly left, 2: opposite, 3: strictly right"""
    c = o.sign(cross(z, w))
    if c > 0:
        return 1
    if c < 0:
        return 3
    return 2 if o.sign(dot(z, w)) < 0 else 0


def ang_cmp(o, z, org, p, q):
    cp, cq = ang_class(o, z, sub(p, org)), ang_class(o, z, sub(q, org))
    if cp != cq:
        return -1 if cp < cq else 1
    if cp in (0, 2):
        return 0
    return -o.sign(det(org, p, q))


def run(ctx):
    names = [x + c for x in "opqz" for c in "xy"]
    cat = Catalogue(names, -1, 1)
    catx = Catalogue(names, 0, 3, maxn=300000)
    o_, p, q, z = xy("o"), xy("p"), xy("q"), xy("z")
    X = (ONE, ZERO)

    def t(name, key, mk, spec, c=cat):
        if key is None:
            return
        eng = ctx.engine()
        st = State()
        Table(ctx, name, key, mk(eng, st), st, spec, c, names, eng=eng).run()

    def with_z(o, x):
        return expect_enum(o, x, cmp_name(ang_cmp(o, z, o_, p, q)))

    def with_x(o, x):
        return expect_enum(o, x, cmp_name(ang_cmp(o, X, o_, p, q)))
    t("Orientation::ccw_cmp_around_with", ctx.one(R + "orientation::Orientation::ccw_cmp_around_with"),
      lambda e, s: [ref(e, s, vector("z")), ref(e, s, arr("o")), ref(e, s, arr("p")), ref(e, s, arr("q"))], with_z)
    for ty, mk in (("point::Point", point), ("vector::Vector", vector)):
        t(ty + "::ccw_cmp_around_with", ctx.one(R + f"data::{ty}::ccw_cmp_around_with"),
          lambda e, s: [ref(e, s, mk("o")), ref(e, s, vector("z")), ref(e, s, mk("p")), ref(e, s, mk("q"))], with_z)
        t(ty + "::ccw_cmp_around", ctx.one(R + f"data::{ty}::ccw_cmp_around"),
          lambda e, s: [ref(e, s, mk("o")), ref(e, s, mk("p")), ref(e, s, mk("q"))], with_x, catx)
    t("Vector::cmp_along", ctx.one(R + "data::vector::Vector::cmp_along"), lambda e, s: [ref(e, s, vector("z")), ref(e, s, point("p")), ref(e, s, point("q"))],
      lambda o, x: expect_enum(o, x, cmp_name(o.sign(dot(z, p) - dot(z, q)))))

    def d2(a, b):
        w = sub(a, b)
        return dot(w, w)
    t("Point::cmp_distance_to", ctx.one(R + "data::point::Point::cmp_distance_to"), lambda e, s: [ref(e, s, point("o")), ref(e, s, point("p")), ref(e, s, point("q"))],
      lambda o, x: expect_enum(o, x, cmp_name(o.sign(d2(o_, p) - d2(o_, q)))))
    sorted_around(ctx, t, with_x_origin=lambda o, x: expect_enum(o, x, cmp_name(ang_cmp(o, X, (ZERO, ZERO), p, q))), cat=catx)


def sorted_around(ctx, t, with_x_origin, cat):
    """sorting vectors: the comparator given to the sort is the angular order around the zero vector"""
    key = ctx.one(R + "data::vector::Vector::sort_around")
    if not key:
        return
    e, st = ctx.engine(), State()
    arg = e.mkdeep(st, "vs", ctx.P.body(key)["locals"][1])
    name = "Vector::sort_around"
    try:
        outs = e.run(key, [arg], st)
        evs = [(ev, o) for o in outs for ev in o.st.events() if ev[0] == "perm" and ev[3] is not None]
        clos = {e.deref(o.st, ev[3]).key: (ev, o) for ev, o in evs if isinstance(e.deref(o.st, ev[3]), Clo)}
        if len(clos) != 1 or len(next(iter(clos.values()))[0][1].split("_key")) > 1:
            raise Inconclusive("the sort was not recognised")
        k, (ev, o) = next(iter(clos.items()))
        names = [x + c for x in "pq" for c in "xy"]
        s = o.st.copy()
        Table(ctx, name, k, [Ref(e.new_cell(s, e.deref(s, ev[3])), (), True), ref(e, s, vector("p")), ref(e, s, vector("q"))], s, with_x_origin, Catalogue(names, -2, 2), names, eng=e).run()
    except Inconclusive as x:
        ctx.inconclusive(name, key, str(x))
