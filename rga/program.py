"""Loader for the driver's JSON dump: types, functions, ADTs, impl index."""
import json


class Program:
    def __init__(self):
        self.fns = {}
        self.adts = {}
        self.items = []
        self.unsafe = []
        self.impl_index = {}    # (trait path, method) -> list of (self ty, trait args, key)
        self.by_path = {}       # path -> [keys]
        self.inherent = {}

    def load(self, path, primary=True):
        d = json.load(open(path))
        tys = d["types"]
        memo = {}

        def T(i):
            if i in memo:
                return memo[i]
            t = tys[i]
            k = t["k"]
            memo[i] = ("rec", i)
            if k in ("bool", "char", "str", "never"):
                r = (k,)
            elif k == "int":
                r = ("int", t["n"], t["s"])
            elif k == "float":
                r = ("float", t["n"])
            elif k in ("adt", "fndef"):
                r = (k, t["p"], tuple(T(a) if isinstance(a, int) else ("const", a["c"]) for a in t["a"]))
            elif k == "array":
                r = ("array", T(t["e"]), t["n"])
            elif k == "slice":
                r = ("slice", T(t["e"]))
            elif k in ("ptr", "ref"):
                r = (k, T(t["e"]), t["m"])
            elif k == "tuple":
                r = ("tuple", tuple(T(x) for x in t["e"]))
            elif k == "closure":
                r = ("closure", t["p"], tuple(T(x) for x in t["up"]))
            elif k == "param":
                r = ("param", t["n"])
            else:
                r = (k, t.get("d", ""))
            memo[i] = r
            return r

        self.T = T

        def conv_place(p):
            out = []
            for e in p["p"]:
                if e[0] == ".":
                    out.append((".", e[1], T(e[2])))
                else:
                    out.append(tuple(e))
            return (p["l"], tuple(out))

        def conv_callee(f):
            f = dict(f)
            f["a"] = [T(a) if isinstance(a, int) else ("const", a["c"]) for a in f["a"]]
            for k in ("self", "impl_self", "r_impl_self"):
                if k in f:
                    f[k] = T(f[k])
            return f

        def conv_op(o):
            if o[0] in ("cp", "mv"):
                return (o[0], conv_place(o[1]))
            if o[0] == "k":
                c = dict(o[1])
                c["t"] = T(c["t"])
                if "fn" in c:
                    c["fn"] = conv_callee(c["fn"])
                if "a" in c:
                    c["a"] = [T(a) if isinstance(a, int) else ("const", a["c"]) for a in c["a"]]
                return ("k", c)
            return tuple(o)

        def conv_rv(r):
            k = r[0]
            if k == "use":
                return (k, conv_op(r[1]))
            if k == "repeat":
                return (k, conv_op(r[1]), r[2])
            if k == "ref":
                return (k, r[1], conv_place(r[2]))
            if k == "addr":
                return (k, r[1], conv_place(r[2]))
            if k == "cast":
                return (k, r[1], conv_op(r[2]), T(r[3]), T(r[4]))
            if k == "bin":
                return (k, r[1], conv_op(r[2]), conv_op(r[3]), T(r[4]))
            if k == "un":
                return (k, r[1], conv_op(r[2]), T(r[3]))
            if k == "discr":
                return (k, conv_place(r[1]), T(r[2]))
            if k == "agg":
                a = dict(r[1])
                if "t" in a:
                    a["t"] = T(a["t"])
                if "a" in a:
                    a["a"] = tuple(T(x) if isinstance(x, int) else ("const", x["c"]) for x in a["a"])
                return (k, a, [conv_op(o) for o in r[2]])
            return tuple(r)

        def conv_body(b):
            bbs = []
            for x in b["bbs"]:
                st = []
                for s in x["s"]:
                    if s[0] == "=":
                        st.append(("=", conv_place(s[1]), conv_rv(s[2]), s[3]))
                    elif s[0] == "setd":
                        st.append(("setd", conv_place(s[1]), s[2], s[3]))
                    elif s[0] == "assume":
                        st.append(("assume", conv_op(s[1])))
                    else:
                        st.append(tuple(s))
                t = x["t"]
                if t[0] == "switch":
                    t = ("switch", conv_op(t[1]), [(int(v), tg) for v, tg in t[2]], t[3], T(t[4]))
                elif t[0] == "drop":
                    t = ("drop", conv_place(t[1]), t[2], T(t[3]))
                elif t[0] == "call":
                    t = ("call", conv_op(t[1]), [conv_op(a) for a in t[2]], conv_place(t[3]), t[4])
                elif t[0] == "assert":
                    t = ("assert", conv_op(t[1]), t[2], t[3], t[4], [conv_op(a) for a in t[5]])
                else:
                    t = tuple(t)
                bbs.append({"s": st, "t": t, "sp": tuple(x["sp"]), "c": x["c"]})
            return {"locals": [T(t) for t in b["locals"]], "argc": b["argc"], "spread": b.get("spread"),
                    "names": {i: n for i, n in b["names"]}, "bbs": bbs}

        for f in d["fns"]:
            f["body_raw"] = f.pop("body")
            f["args"] = [T(a) if isinstance(a, int) else ("const", a["c"]) for a in f["args"]]
            for k in ("impl_self", "output"):
                if k in f:
                    f[k] = T(f[k])
            if "inputs" in f:
                f["inputs"] = [T(t) for t in f["inputs"]]
            if "impl_trait_args" in f:
                f["impl_trait_args"] = [T(a) if isinstance(a, int) else ("const", a["c"]) for a in f["impl_trait_args"]]
            f["_conv"] = conv_body
            f["primary"] = primary
            f["crate_unit"] = d["crate"]
            if f["key"] in self.fns:
                continue
            self.fns[f["key"]] = f
            self.by_path.setdefault(f["path"], []).append(f["key"])
            if f.get("root") and "impl_trait" in f:
                self.impl_index.setdefault((f["impl_trait"], f["name"]), []).append((f["impl_self"], f["impl_trait_args"], f["key"]))
            if f.get("root") and "in_trait" in f:
                self.impl_index.setdefault((f["in_trait"], f["name"], "default"), []).append(f["key"])
        for a in d["adts"]:
            if a["path"] not in self.adts:
                for v in a["variants"]:
                    for fl in v["f"]:
                        fl["t"] = T(fl["t"]) if fl["t"] >= 0 else None
                self.adts[a["path"]] = a
        for it in d["items"]:
            if "self" in it:
                it["self"] = T(it["self"])
            if "t" in it:
                it["t"] = T(it["t"])
            if "targs" in it:
                it["targs"] = [T(a) if isinstance(a, int) else ("const", a["c"]) for a in it["targs"]]
            it["primary"] = primary
            self.items.append(it)
        if primary:
            self.unsafe += d["unsafe"]
        return self

    def body(self, key):
        f = self.fns[key]
        if "body" not in f:
            f["body"] = f["_conv"](f["body_raw"])
        return f["body"]

    def roots(self):
        return [f for f in self.fns.values() if f.get("root") and f["primary"]]

    # ---- type helpers
    def subst(self, t, env):
        if not isinstance(t, tuple) or not env:
            return t
        k = t[0]
        if k == "param":
            return env.get(t[1], t)
        if k == "adt" or k == "fndef":
            return (k, t[1], tuple(self.subst(a, env) for a in t[2]))
        if k == "array":
            n = t[2]
            if isinstance(n, str) and n in env and env[n][0] == "const":
                n = env[n][1]
            return (k, self.subst(t[1], env), n)
        if k == "slice":
            return (k, self.subst(t[1], env))
        if k in ("ref", "ptr"):
            return (k, self.subst(t[1], env), t[2])
        if k == "tuple":
            return (k, tuple(self.subst(a, env) for a in t[1]))
        if k == "const" and isinstance(t[1], str) and t[1] in env:
            return env[t[1]]
        return t

    def adt_env(self, t):
        a = self.adts.get(t[1])
        if not a:
            return {}
        return dict(zip(a["gen"], t[2]))

    def field_ty(self, t, variant, i):
        """type of field i of type t (adt/tuple/closure)"""
        if t is None:
            return None
        if t[0] == "tuple":
            return t[1][i] if i < len(t[1]) else None
        if t[0] == "adt":
            a = self.adts.get(t[1])
            if not a or variant is None or variant >= len(a["variants"]):
                return None
            fs = a["variants"][variant]["f"]
            if i >= len(fs) or fs[i]["t"] is None:
                return None
            return self.subst(fs[i]["t"], self.adt_env(t))
        return None
