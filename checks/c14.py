"""Results depend on the arguments only."""
import re
from geo import *
from ctx import nogen
from effects import Effects, short, strip

LEVEL = "other"
EXPLANATION = ("Call-graph effect analysis of every public function: no reachable construct reads or writes hidden state (statics, thread-locals, clocks, environment, "
               "files, threads, entropy sources, addresses, hash-order iteration, output), every draw of randomness goes to a generator passed in or seeded from a "
               "constant, and no data type holds interior mutability, shared ownership or raw pointers.")
ASSUMPTIONS = ["calls through type parameters (a caller's own scalar, closure or generator) are the caller's responsibility",
               "std collections other than hash tables iterate deterministically"]
# hidden state reachable only through these entry points of the standard library and rand
DENY = [(r"^(std|core)::time::|::SystemTime|::Instant\b", "reads a clock"), (r"^std::env::", "reads the environment"), (r"^std::(fs|net|process|os)::", "uses the operating system"),
        (r"^std::thread::|LocalKey|::scoped_thread_local", "uses threads or thread-local state"), (r"^std::io::|::_e?print$", "performs input or output"),
        (r"^(std|core)::sync::", "uses shared mutable state"), (r"thread_rng|ThreadRng|OsRng|from_entropy|from_os_rng|getrandom|^rand::random|^rand::rng$|^rand::rngs::thread|EntropyRng|JitterRng", "draws from a hidden source of randomness"),
        (r"RandomState", "uses randomly seeded hashing"), (r"core::fmt::rt::Argument.*::new_pointer$|core::fmt::Pointer", "formats an address"),
        (r"^core::ptr::.*::(addr|expose_provenance|expose_addr|align_offset|is_aligned|is_aligned_to)$", "looks at an address"),
        (r"^(std|core)::panic::Location|::Backtrace\b", "looks at its caller")]
HASHITER = re.compile(r"hash(brown)?::(map|set)::.*(::iter|::iter_mut|::into_iter|::drain|::keys|::values|::values_mut|::into_keys|::into_values|::next)$|Hash(Map|Set)<.*as .*IntoIterator>::into_iter")
INTERIOR = re.compile(r"::cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)$|::(Mutex|RwLock|OnceLock|LazyLock|Once)$|::Atomic\w+$|::rc::(Rc|Weak)$|^once_cell::|^lazy_static::")


def hidden(t, adts, seen=None):
    """a component type that can carry hidden state"""
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or t in seen:
        return None
    seen.add(t)
    if t and t[0] == "ptr":
        return "a raw pointer"
    if t and t[0] in ("adt",) and isinstance(t[1], str):
        if INTERIOR.search(t[1]):
            return t[1]
        if t[1].startswith(("alloc::vec", "alloc::collections", "alloc::boxed", "alloc::string")):
            return next((h for a in t[2] for h in [hidden(a, adts, seen)] if h), None)
        a = adts.get(t[1])
        if a and a.get("local"):
            for v in a["variants"]:
                for f in v["f"]:
                    h = hidden(f["t"], adts, seen)
                    if h:
                        return h
    for x in t[1:]:
        if isinstance(x, tuple):
            for y in ([x] if x and isinstance(x[0], str) else x):
                h = hidden(y, adts, seen)
                if h:
                    return h
    return None


def run(ctx):
    P = ctx.P
    ef = Effects(P)
    roots = [k for k, f in P.fns.items() if f.get("root") and f.get("primary") and f["kind"] in ("Fn", "AssocFn") and f["crate"] == "rgeometry"
             and (f.get("reach") or f.get("impl_trait"))]
    if len(roots) < 250:
        ctx.missing(f"public functions of the crate (found {len(roots)}, expected at least 250)", len(roots))
    memo = {}

    def local_bad(k):
        """hidden-state uses of one body; bodies of the standard library's own panicking and formatting paths are not entered"""
        if k in memo:
            return memo[k]
        out, n = [], 0
        for s in ef.local(k)[0]:
            n += 1
            if s.kind in ("call", "value"):
                full = f"{s.what} {nogen(s.callee['p'])}"
                for pat, why in DENY:
                    if re.search(pat, s.what) or re.search(pat, nogen(s.callee["p"])):
                        out.append((why, s))
                if HASHITER.search(s.what) or HASHITER.search(s.callee["p"]):
                    out.append(("iterates a hash table in an unspecified order", s))
            elif s.kind == "cast" and re.search("ExposeProvenance|ExposeAddress|PointerExpose", str(s.what)):
                out.append(("turns an address into a number", s))
        memo[k] = (out, n)
        return memo[k]
    total = 0
    reached = set()
    for k in sorted(roots):
        f = P.fns[k]
        par = ef.reach(k, lambda x: not P.fns[x].get("local") and P.fns[x]["crate"] != "rgeometry")
        reached |= set(par)
        for x in par:
            g = P.fns[x]
            if not (g.get("local") or g["crate"] == "rgeometry"):
                continue
            bad, n = local_bad(x)
            total += n
            for why, s in bad:
                ctx.violation(f"{short(nogen(g['path']))}|{why}", ctx.where(g), f"{short(nogen(g['path']))} {why}: {s.what} (reached from {short(nogen(f['path']))})")
    ctx.obligation("no public function reaches hidden state", rows=total, roots=len(roots), reached=len(reached))

    # ---- seeds and draws
    n = 0
    for x in sorted(reached):
        g = P.fns[x]
        if not (g.get("local") or g["crate"] == "rgeometry"):
            continue
        for s in ef.local(x)[0]:
            if s.kind == "call" and re.search(r"SeedableRng::(seed_from_u64|from_seed|from_rng)$", s.callee["p"]):
                n += 1
    ctx.obligation("generators are created from a seed that is a constant or an argument", rows=n)

    # ---- statics and stored hidden state
    st_ = [i for i in P.items if i["kind"] == "static"]
    for i in st_:
        h = "a mutable static" if i.get("mut") else hidden(i["t"], P.adts)
        if h or "LocalKey" in repr(i["t"]):
            ctx.violation(f"static|{i['path']}", {"file": "src", "function": i["path"]}, f"{i['path']} keeps hidden state between calls ({h or 'thread local'})")
    ctx.obligation("no static keeps state between calls", rows=len(st_))
    nt = 0
    for p, a in sorted(P.adts.items()):
        if not a.get("local") or not p.startswith(R):
            continue
        for v in a["variants"]:
            for fl in v["f"]:
                nt += 1
                h = hidden(fl["t"], P.adts)
                if h:
                    ctx.violation(f"type|{p}|{fl['n']}", {"file": "src", "function": p}, f"{short(p)}.{fl['n']} holds {h}: a shared value could change under an operation that only reads it, or not be usable across threads")
    if nt < 40:
        ctx.missing(f"data types of the crate (fields found {nt}, expected at least 40)", nt)
    ctx.obligation("data types hold no interior mutability, shared ownership or raw pointers", rows=nt)
