"""Memory safety of the crate's own code: the only unchecked operation is a layout-compatible view."""
from geo import *
from ctx import nogen
from effects import short

LEVEL = "other"
EXPLANATION = ("Every function body of the crate is searched for unchecked operations (unsafe blocks, unsafe calls, raw pointer dereferences, pointer casts, transmutes, "
               "union reads, mutable statics, inline assembly, unsafe impls); each pointer cast must be a shared-reference view between types whose layouts are the same "
               "by declaration (chains of repr(transparent) wrappers ending in the same field type), keeping mutability and the source's lifetime.")
ASSUMPTIONS = ["the compiler's borrow checker has accepted the code", "dependencies are memory safe"]


def layout(P, t, depth=0):
    """the type a chain of transparent wrappers boils down to"""
    if depth > 8 or not isinstance(t, tuple):
        return t
    if t[0] == "adt":
        a = P.adts.get(t[1])
        if a and a.get("transparent") and len(a["variants"]) == 1:
            fs = [f for f in a["variants"][0]["f"] if "PhantomData" not in repr(f["t"])]
            if len(fs) == 1:
                sub = dict(zip(a["gen"], t[2]))
                return layout(P, subst(fs[0]["t"], sub), depth + 1)
    return t


def subst(t, sub):
    if not isinstance(t, tuple):
        return sub.get(t, t) if isinstance(t, str) else t
    if len(t) == 2 and t[0] == "param" and t[1] in sub:
        return sub[t[1]]
    if len(t) == 3 and t[0] == "array":
        ln = t[2]
        return ("array", subst(t[1], sub), sub[ln][1] if isinstance(ln, str) and ln in sub and isinstance(sub[ln], tuple) else ln)
    return tuple(subst(x, sub) if isinstance(x, tuple) else x for x in t)


def opty(P, body, o):
    """type of an operand"""
    if o[0] in ("cp", "mv"):
        t = body["locals"][o[1][0]]
        for e in o[1][1]:
            if e[0] == "*":
                t = t[1] if t and t[0] in ("ref", "ptr") else None
            elif e[0] == ".":
                t = e[2]
            elif e[0] == "v":
                pass
            else:
                t = t[1] if t and t[0] in ("array", "slice") else None
        return t
    return o[1].get("t") if o[0] == "k" else None


def run(ctx):
    P = ctx.P
    bodies = ops = views = 0
    blocks = {}
    for u in P.unsafe:
        blocks.setdefault(u["in"], []).append(u)
    for k, f in sorted(P.fns.items()):
        if f["crate"] != "rgeometry" or not f.get("primary"):
            continue
        if f.get("root") or f["kind"] == "Closure":
            bodies += 1
            if f.get("unsafe"):
                ctx.violation(f"{short(nogen(f['path']))}|unsafe fn", ctx.where(f), f"{short(nogen(f['path']))} is an unsafe function: its callers carry an unchecked obligation")
    # the compiler confines unchecked operations to unsafe blocks: audit every function that has one
    for path, us in sorted(blocks.items()):
        ks = [k for k, f in P.fns.items() if f["crate"] == "rgeometry" and f.get("primary") and (f["path"] == path or f.get("parent") == path) and (f.get("root") or f["kind"] == "Closure")]
        nv = 0
        for k in ks:
            b, f = P.body(k), P.fns[k]
            nm = nice_path(f["path"])
            where = dict(ctx.where(f), line=us[0]["span"][1])
            for bb in b["bbs"]:
                if bb["c"]:
                    continue
                for s in bb["s"]:
                    if s[0] != "=" or s[2][0] != "cast":
                        continue
                    ops += 1
                    src, dst = opty(P, b, s[2][2]), b["locals"][s[1][0]] if not s[1][1] else None
                    if not src or not dst or "MaybeUninit" in repr(src):
                        continue
                    if src[0] in ("ptr", "ref") and dst[0] == "ptr" and dst[1] != ("tuple", ()):
                        if dst[2] and not src[2]:
                            ctx.violation(f"{nm}|mutable view", where, f"{nm} turns a shared reference into a mutable pointer")
                        a, c = layout(P, src[1]), layout(P, dst[1])
                        if a != c:
                            ctx.violation(f"{nm}|cast {tn(src[1])} {tn(dst[1])}", where,
                                          f"{nm} views memory of type {tn(src[1])} as {tn(dst[1])}, whose layouts are not the same by declaration",
                                          {"source layout": tn(a), "target layout": tn(c), "rule": "both must be chains of repr(transparent) wrappers around the same type"})
                        elif src[1] != dst[1]:
                            nv += 1
                    elif "Transmute" in str(s[2][1]) and not (src[0] == "ptr" and dst[0] == "int"):
                        if layout(P, src) != layout(P, dst) and not (src[0] == dst[0] == "ref" and layout(P, src[1]) == layout(P, dst[1]) and src[2] == dst[2]):
                            ctx.violation(f"{nm}|transmute {tn(src)} {tn(dst)}", where, f"{nm} reinterprets {tn(src)} as {tn(dst)}, whose layouts are not the same by declaration")
                        else:
                            nv += 1
                t = bb["t"]
                if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                    ops += 1
                    c = t[1][1]["fn"]
                    if c.get("unsafe"):
                        ctx.violation(f"{nm}|{nogen(c['p'])}", where, f"{nm} calls {nogen(c['p'])}, whose precondition nothing checks")
        views += nv
        if not nv:
            ctx.violation(f"{nice_path(path)}|unsafe block", {"file": us[0]["span"][0], "line": us[0]["span"][1], "function": path},
                          f"{nice_path(path)} has an unsafe block that is not a layout-compatible view of a reference")
    for i in P.items:
        if i["kind"] == "impl" and i.get("unsafe") and not i.get("derived"):
            ctx.violation(f"unsafe impl {i.get('trait')}", {"file": "src", "function": str(i.get("trait"))}, f"unsafe impl of {i.get('trait')}")
        if i["kind"] == "static" and i.get("mut"):
            ctx.violation(f"static mut {i['path']}", {"file": "src", "function": i["path"]}, f"mutable static {i['path']}")
    for p, a in P.adts.items():
        if a.get("local") and a["kind"] == "Union":
            ctx.violation(f"union {p}", {"file": "src", "function": p}, f"{p} is a union")
    if bodies < 250:
        ctx.missing(f"function bodies of the crate (found {bodies}, expected at least 250)", bodies)
    ctx.obligation("every unchecked operation is a layout-compatible shared view", rows=bodies + ops, bodies=bodies, unsafe_blocks=len(P.unsafe), views=views)


def nice_path(p):
    return short(nogen(p)) if not p.startswith("<") else short(p)


def tn(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "adt":
        return short(t[1]).split("::")[-1] + ("<" + ", ".join(tn(x) for x in t[2]) + ">" if t[2] else "")
    if t[0] == "array":
        return f"[{tn(t[1])}; {t[2]}]"
    return str(t[1]) if len(t) > 1 else str(t[0])
