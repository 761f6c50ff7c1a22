"""Proving a condition about values at a point, looking into the callers when it is about parameters."""
from expr import X, last, subst, has_bad, concrete
from bounds import B


def stable_name(b):
    """A name for the function that survives renumbering of impl blocks."""
    return b.nice


def show(F, b, e, depth=0):
    """A readable form of an expression (no line numbers, no local numbers)."""
    if depth > 5:
        return ".."
    k = e[0]
    if k == "c":
        return str(e[1])
    if k == "p":
        return b.lname(e[1]) or "arg%d" % e[1]
    if k == "l":
        return b.lname(e[1]) or "tmp"
    if k == "f":
        return "%s.%s" % (show(F, b, e[1], depth + 1), e[2])
    if k == "bin":
        return "(%s %s %s)" % (show(F, b, e[2], depth + 1), {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%"}.get(e[1], e[1]), show(F, b, e[3], depth + 1))
    if k == "len":
        return "len(%s)" % show(F, b, e[1], depth + 1)
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(show(F, b, a, depth + 1) for a in e[2:] if isinstance(a, tuple)))
    if k == "pure":
        return "%s(..)" % last(F.nice(e[1]))
    if k == "call@":
        return "%s(..)" % last(F.nice(e[2]))
    if k in ("some", "down"):
        return show(F, b, e[1], depth + 1)
    if k == "cast":
        return show(F, b, e[2], depth + 1)
    if k == "idx":
        return "%s[%s]" % (show(F, b, e[1], depth + 1), show(F, b, e[2], depth + 1))
    if k == "agg":
        return "%s{..}" % e[1].split("::")[-1]
    return k


def only_params(e):
    """The expression is about the function's parameters (and constants) alone."""
    if not isinstance(e, tuple):
        return True
    if e and e[0] in ("l", "call@", "idx", "closure"):
        return False
    return all(only_params(x) for x in e if isinstance(x, tuple))


_callers = {}


def callers(F, C):
    k = id(F)
    if k not in _callers:
        m = {}
        unk = set()
        given = {}
        for bid, b in F.bodies.items():
            for bb, t in b.calls():
                f = t.get("res") or t.get("f")
                if f in F.bodies or f in F.impl_of:
                    m.setdefault(f, []).append((b, bb, t))
            # functions used as values can be called from anywhere, except by the adaptor they are given to
            for bb in b.reach:
                ops = []
                t = b.blocks[bb]["t"]
                runs = t["k"] == "call" and runs_arg(F, t)
                for s in b.blocks[bb]["s"]:
                    if s["k"] == "=":
                        r = s["r"]
                        ops += [r[x] for x in ("o", "a", "b") if isinstance(r.get(x), dict)] + list(r.get("ops", []) if r["k"] == "agg" else [])
                if t["k"] == "call":
                    ops += t["a"]
                for o in ops:
                    if o.get("k") == "const":
                        ty = F.types[o["t"]]
                        if ty["k"] == "fndef":
                            f = ty.get("res") or ty["d"]
                            if runs and o is t["a"][-1]:
                                given.setdefault(f, []).append((b, bb, t))
                            else:
                                unk.add(f)
        _callers[k] = (m, unk | set(given))
        _callers[("handed", k)] = (unk, given)
    return _callers[k]


def prove(F, C, b, bb, e, goal, depth=0, extra=()):
    """goal(B, e) holds at block bb of b; looks into the callers when e is about parameters."""
    x = X.of(F, b)
    return prove_multi(F, C, b, bb, (e,), lambda B_, es: goal(B_, es[0]), depth)


def prove_multi(F, C, b, bb, es, goal, depth=0, ty=None):
    x = X.of(F, b)
    if goal(B(F, x, x.facts(bb)), es):
        return True
    if depth < 4 and lifted(F, C, b, x, bb, es, goal, depth):
        return True
    if depth >= 4 or not all(only_params(e) for e in es):
        return False
    if b.kind == "closure":
        return from_maker(F, C, b, x, bb, es, goal, depth, ty)
    fi = F.fns.get(b.id, {})
    m, _ = callers(F, C)
    unk, given = _callers[("handed", id(F))]
    # a method of one of the library's own traits: its users are the library's calls of it
    inner = fi.get("trait_item") in F.impl_of
    if b.kind != "fn" or (fi.get("export") and not inner) or fi.get("sym") or b.id in unk or (fi.get("trait_item") and b.id not in m and fi["trait_item"] not in m):
        return False
    sites = [(cb, cbb, t, None) for cb, cbb, t in m.get(b.id, [])]
    if fi.get("trait_item") and fi["trait_item"] != b.id:
        # calls that leave open which implementation they reach
        sites += [(cb, cbb, t, self_type(F, b, t)) for cb, cbb, t in m.get(fi["trait_item"], []) if not t.get("res") or t["res"] == "virtual"]
    handed = given.get(b.id, [])
    if not sites and not handed or handed and b.argc != 1:
        return False
    if fi.get("reach") and public(F, b) and not inner:
        return False
    # facts at the point that are about the parameters hold in the caller's terms too
    fs = [f for f in x.facts(bb) if only_params(f)]
    for cb, cbb, t, ty in sites:
        cx = X.of(F, cb)
        args = [cx.op(a) for a in t["a"]]
        mp = {("p", i + 1): a for i, a in enumerate(args)}
        es2 = tuple(simplify(cx, subst(e, mp)) for e in es)
        cfs = cx.facts(cbb) + [subst(f, mp) for f in fs]
        if ty:
            es2 = tuple(concrete(F, subst(e, ty)) for e in es2)
            cfs = [concrete(F, subst(f, ty)) for f in cfs]
        BB = B(F, cx, cfs)
        if goal(BB, es2):
            continue
        if not prove_multi(F, C, cb, cbb, es2, goal, depth + 1, ty):
            return False
    for cb, cbb, t in handed:
        cx = X.of(F, cb)
        item, cfs = what_it_gets(F, cx, cbb, t)
        if item is None:
            return False
        mp = {("p", 1): item}
        es2 = tuple(simplify(cx, subst(e, mp)) for e in es)
        if not goal(B(F, cx, cx.facts(cbb) + cfs + [subst(f, mp) for f in fs]), es2):
            return False
    return True


def self_type(F, b, t):
    """The type parameter of an open call that stands for the type whose implementation b belongs to."""
    me = F.fns.get(b.id, {}).get("self")
    if me is None or not t.get("ta"):
        return {}
    return {("ty", F.tys(t["ta"][0])): ("ty", F.tys(me))}


def makers(F):
    """{closure: [(body, block, captured operands)]}"""
    k = ("makers", id(F))
    if k not in _callers:
        m = {}
        for b in F.bodies.values():
            for bb in b.reach:
                for s in b.blocks[bb]["s"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") in F.bodies:
                        m.setdefault(s["r"]["d"], []).append((b, bb, s["r"]["ops"]))
        _callers[k] = m
    return _callers[k]


def params_of(e, out):
    if isinstance(e, tuple):
        if len(e) == 3 and e[0] == "f" and e[1] == ("p", 1):
            out.add(e)
            return
        if len(e) == 2 and e[0] == "p":
            out.add(e)
            return
        for y in e:
            if isinstance(y, tuple):
                params_of(y, out)


def from_maker(F, C, b, x, bb, es, goal, depth, ty=None):
    """The values are captured ones: judge them where the closure is made."""
    ps = set()
    for e in es:
        params_of(e, ps)
    own = {p for p in ps if p[0] != "f"}
    if not ps or own - {("p", 2)}:
        return False
    sites = makers(F).get(b.id)
    if not sites:
        return False
    fs = [f for f in x.facts(bb) if only_params(f)]
    for cb, cbb, ops in sites:
        cx = X.of(F, cb)
        if any(p[0] == "f" and p[2] >= len(ops) for p in ps):
            return False
        at, cfs = cbb, []
        mp = {("f", ("p", 1), i): cx.op(o) for i, o in enumerate(ops)}
        u = adaptor(F, cb, b.id)
        if u is not None:
            at = u[0]
            item, cfs = what_it_gets(F, cx, *u)
            if own and item is None:
                return False
            mp[("p", 2)] = item
        elif own:
            return False
        es2 = tuple(simplify(cx, subst(e, mp)) for e in es)
        known = [subst(f, mp) for f in fs if not captured_env(f)]
        every = cx.facts(at) + cfs + known
        if ty:
            every = [concrete(F, subst(f, ty)) for f in every]
            es2 = tuple(concrete(F, subst(e, ty)) for e in es2)
        BB = B(F, cx, every)
        if goal(BB, es2):
            continue
        if own and cfs or not prove_multi(F, C, cb, at, es2, goal, depth + 1):
            return False
    return True


ADAPTORS = {"map", "and_then", "filter", "is_some_and", "is_ok_and", "inspect", "map_or", "map_or_else"}
ITERATE = {"map", "for_each", "filter", "filter_map", "flat_map", "any", "all", "position", "try_for_each", "inspect", "take_while", "skip_while", "map_while", "find", "find_map"}


def runs_arg(F, t):
    """option, iterator or bool: what the last argument, a function, is run on; None for any other call."""
    f = t.get("res") or t.get("f") or ""
    n = last(F.nice(f))
    if len(t["a"]) < 2:
        return None
    if ("::option::" in f or "::result::" in f) and n in ADAPTORS:
        return "option"
    if "::bool::" in f and n == "then":
        return "bool"
    if ("::iter::" in f or "Iterator" in F.nice(f)) and n in ITERATE:
        return "iterator"
    return None


def what_it_gets(F, cx, bb, t):
    """(what the function given to the call is run on, what is known when it is run)"""
    kind = runs_arg(F, t)
    e = cx.op(t["a"][0])
    if kind == "option":
        return cx.payload(e, 99), [("ok", e)] + cx.ok_facts(e)
    if kind == "bool":
        return None, cx.cond(e, True)
    if kind == "iterator":
        return ("some", ("call@", bb, "core::iter::Iterator::next", e)), []
    return None, None


def adaptor(F, cb, clo):
    """(block, call) of the call that runs the closure on what is in an option or an iterator, or if a condition holds."""
    cx = X.of(F, cb)
    for bb, t in cb.calls():
        if runs_arg(F, t):
            c = cx.op(t["a"][-1])
            if cx.closure_of(c) == clo:
                return bb, t
    return None


def captured_env(f):
    """Mentions the environment of the closure other than by its fields."""
    if not isinstance(f, tuple):
        return False
    if len(f) == 3 and f[0] == "f" and f[1] == ("p", 1):
        return False
    return f == ("p", 1) or any(captured_env(y) for y in f)


def field_reads(e, out):
    if not isinstance(e, tuple):
        return
    if e and e[0] == "f" and isinstance(e[1], tuple) and e[1][0] in ("p", "l", "f", "some"):
        out.append(e)
    for x in e:
        if isinstance(x, tuple):
            field_reads(x, out)


def lifted(F, C, b, x, bb, es, goal, depth):
    """The values are fields of one struct that are set only when it is built: judge them where it is built."""
    import mods
    fr = []
    for e in es:
        field_reads(e, fr)
    M = mods.get(F)
    B_ = B(F, x, [])
    for base in dict.fromkeys(f[1] for f in fr):
        ty = B_.seq_type(base)
        if ty is None:
            continue
        _, t = mods.strip(F, ty)
        if t["k"] != "adt" or t["d"] not in F.adts:
            continue
        idx = {f[2] for f in fr if f[1] == base}
        sites = [M.fixed(t["d"], i) for i in idx]
        if any(not s for s in sites):
            continue
        ok = True
        if not all(closed(subst(e, {("f", base, i): ("c", 0) for i in idx})) for e in es):
            continue
        for cb, cbb, agg in sites[0]:
            cx = X.of(F, cb)
            mp = {("f", base, i): cx.op(agg["ops"][i]) for i in idx if i < len(agg["ops"])}
            es2 = tuple(simplify(cx, subst(e, mp)) for e in es)
            if all(same_field(cx, cb, t["d"], i, mp[("f", base, i)]) for i in idx):
                continue  # a copy of one that exists already
            if not prove_multi(F, C, cb, cbb, es2, goal, depth + 1):
                ok = False
                break
        if ok:
            return True
    return False


def same_field(x, b, adt, i, e):
    import mods
    if e[0] != "f" or e[2] != i:
        return False
    ty = B(x.F, x, []).seq_type(e[1])
    return ty is not None and mods.strip(x.F, ty)[1].get("d") == adt


def closed(e):
    if not isinstance(e, tuple):
        return True
    if e and e[0] in ("l", "p", "call@", "closure"):
        return False
    return all(closed(y) for y in e)


def public(F, b):
    """Callable by users of the crate: the callers inside it are not all there are."""
    return bool(F.fns.get(b.id, {}).get("reach"))


def simplify(x, e):
    """Field projections of aggregates that substitution exposed."""
    if not isinstance(e, tuple):
        return e
    e = tuple(simplify(x, y) for y in e)
    if e and e[0] == "f" and isinstance(e[1], tuple) and e[1] and e[1][0] == "agg" and e[2] < len(e[1][3]):
        return e[1][3][e[2]]
    if e and e[0] == "len" and isinstance(e[1], tuple):
        return x.length(e[1])
    return e
