from poly import Poly, ATOM_TY


class Num:
    __slots__ = ("p", "ty", "w")

    def __init__(self, p, ty=None, w=None):
        self.p = p
        self.ty = ty
        self.w = w      # wrapped modulo 2**w (value only known modulo)

    def __eq__(self, o):
        return isinstance(o, Num) and self.p == o.p and self.w == o.w

    def __hash__(self):
        return hash((self.p, self.w))

    def __repr__(self):
        return f"{self.p!r}" if self.w is None else f"wrap{self.w}({self.p!r})"


class Adt:
    __slots__ = ("path", "v", "f", "ty")

    def __init__(self, path, v, f, ty=None):
        self.path = path
        self.v = v
        self.f = tuple(f)
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Adt) and self.path == o.path and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.path, self.v, self.f))

    def __repr__(self):
        return f"{self.path.split('::')[-1]}#{self.v}({', '.join(map(repr, self.f))})"


class Tup:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return f"({', '.join(map(repr, self.f))})"


class Arr:
    """sequence with known length (array, vec or slice contents)"""
    __slots__ = ("f", "kind", "ty")

    def __init__(self, f, kind="array", ty=None):
        self.f = tuple(f)
        self.kind = kind
        self.ty = ty        # declared type, for sequences that start empty

    def __eq__(self, o):
        return isinstance(o, Arr) and self.f == o.f

    def __hash__(self):
        return hash(("arr", self.f))

    def __repr__(self):
        return f"[{', '.join(map(repr, self.f))}]"


class Clo:
    __slots__ = ("key", "f")

    def __init__(self, key, f):
        self.key = key
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Clo) and self.key == o.key and self.f == o.f

    def __hash__(self):
        return hash((self.key, self.f))

    def __repr__(self):
        return f"closure<{self.key.split('::')[-1][:30]}>({', '.join(map(repr, self.f))})"


class FnV:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, FnV) and self.c["p"] == o.c["p"] and self.c.get("r") == o.c.get("r")

    def __hash__(self):
        return hash(self.c["p"])

    def __repr__(self):
        return f"fn {self.c['p']}"


class Ref:
    __slots__ = ("c", "pr", "m")

    def __init__(self, c, pr=(), m=False):
        self.c = c
        self.pr = tuple(pr)
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Ref) and self.c == o.c and self.pr == o.pr

    def __hash__(self):
        return hash((self.c, self.pr))

    def __repr__(self):
        return f"&{self.c}{''.join('.' + str(x[1:]) for x in self.pr)}"


class Opq:
    __slots__ = ("t", "ty")

    def __init__(self, t, ty=None):
        self.t = t
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Opq) and self.t == o.t

    def __hash__(self):
        return hash(("opq", self.t))

    def __repr__(self):
        return f"<{self.t}>"


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()
UNIT = Tup(())
NEG, ZER, POS = 1, 2, 4
ANY = 7
