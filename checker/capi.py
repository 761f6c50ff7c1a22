"""What the C API consists of: exported functions and how the explorer walks them."""
from explore import *

# floor counted by hand on the pinned tree
MIN_EXPORTS = 60


def exports(F):
    """[(path, fn)] of every function exported to C."""
    return sorted([(k, f) for k, f in F.fns.items() if f.get("sym") and f["abi"].startswith("C") and k in F.bodies],
                  key=lambda x: x[1]["sym"])


def capi_files(F):
    return {f["file"] for _, f in exports(F)}


def inline_pred(F):
    """Local functions to walk into: those of the C API layer and any that take raw pointers."""
    files = capi_files(F)

    def p(b):
        if b.file in files or "/capi" in b.file:
            return True
        for i in range(b.argc):
            if F.types[b.lty(i + 1)]["k"] == "ptr":
                return True
        return False

    return p


def explorer(F, **kw):
    return Explorer(F, inline=inline_pred(F), **kw)


def argname(b, i):
    return b.lname(i + 1) or "arg%d" % (i + 1)


def is_ptr(F, t):
    return F.types[t]["k"] == "ptr"


def is_nullable_ref(F, t):
    """Option<&T>, Option<Box<T>>, Option<NonNull<T>>, Option<fn>."""
    t = F.types[t]
    if t["k"] == "adt" and t["d"] == "core::option::Option" and t["a"]:
        i = F.types[t["a"][0]]
        return i["k"] in ("ref", "fnptr") or (i["k"] == "adt" and (i["d"].endswith("boxed::Box") or i["d"].endswith("NonNull")))
    return False


def spread(F, b, i):
    """Parameter i (0-based) of b is kept in a table or moved along, so that the walk cannot follow the writes made through it."""
    from expr import X, last
    def strip(e):
        while e[0] in ("cast", "unsize") and isinstance(e[-1], tuple):
            e = e[-1]
        return e
    work, seen = [(b, ("p", i + 1))], set()
    while work:
        c, e = work.pop()
        if (c.id, e) in seen:
            continue
        seen.add((c.id, e))
        x = X.of(F, c)
        for bb in c.reach:
            for s in c.blocks[bb]["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg":
                    for k, o in enumerate(s["r"]["ops"]):
                        if strip(x.op(o)) == e:
                            if s["r"]["ak"] != "closure":
                                return True
                            cb = F.bodies.get(s["r"]["d"])
                            if cb is not None:
                                work.append((cb, ("f", ("p", 1), k)))
            t = c.blocks[bb]["t"]
            if t["k"] == "call":
                f = t.get("res") or t.get("f") or ""
                for k, o in enumerate(t["a"]):
                    if o["k"] in ("copy", "move") and strip(x.op(o)) == e:
                        if f in F.bodies:
                            work.append((F.bodies[f], ("p", k + 1)))
                        elif last(F.nice(f)) in ("add", "offset", "wrapping_add", "byte_add", "sub", "wrapping_offset"):
                            return True
    return False
