"""C02: C API objects have one owner and one matching release function."""
from capi import *
import headers

LOCAL, ARG, STATIC, OWN, NULL, UNKNOWN = "local", "arg", "static", "own", "null", "unknown"


def region(E, s, v, depth=0):
    """What a pointer points into."""
    v = strip_cast(v)
    if depth > 40 or not isinstance(v, tuple) or not v:
        return UNKNOWN
    k = v[0]
    if k == "null" or E.nullness(s, v) is True:
        return NULL
    if k == "own":
        return OWN
    if k in ("static", "const", "constdef", "promoted", "fn"):
        return STATIC
    if k == "arg":
        return ARG
    if k == "mem":
        return region(E, s, v[1], depth + 1)
    if k == "field":
        return region(E, s, v[1], depth + 1)
    if k == "addr":
        kind, base, proj = v[1]
        if kind == "L":
            return LOCAL
        if kind == "C":
            return STATIC
        if kind == "V":
            return LOCAL
        return region(E, s, base, depth + 1)
    if k in ("transmute", "boxraw"):
        return region(E, s, v[1], depth + 1)
    if k == "agg":
        rs = [region(E, s, x, depth + 1) for x in v[4] if isinstance(x, tuple)]
        return worst(rs)
    if k == "call":
        args = [a for a in v[2] if isinstance(a, tuple) and not (a[0] == "agg" and a[1] == "closure") and a[0] not in ("int", "fn")]
        if not args:
            return UNKNOWN
        # the result borrows from the first argument (method receiver), as lifetime elision has it
        return region(E, s, args[0], depth + 1)
    return UNKNOWN


def worst(rs):
    for r in (LOCAL, UNKNOWN, OWN, ARG, STATIC, NULL):
        if r in rs:
            return r
    return STATIC


def owned_result(F, E, v):
    """A call result that is an owned value, not a reference: borrowing from it borrows from a temporary."""
    t = E.vtypes.get(v)
    if t is None:
        return False
    return F.types[t]["k"] not in ("ref", "ptr")


def has_lifetime(F, t):
    return "'" in F.tys(t)


def find_clone(v):
    """Does the term contain a reference-counted handle cloned from memory of an argument?"""
    if isinstance(v, tuple):
        if v and v[0] == "call" and v[1].endswith("clone::Clone::clone"):
            return True
        return any(find_clone(x) for x in v)
    return False


def run(F, R):
    R.rule("returned-pointer", "every pointer returned or stored through a parameter is, on every path, NULL, a fresh Box given away with into_raw, or points into an argument object or static storage; never into a local")
    R.rule("fresh-type", "an object given away has exactly the type its handle designates, and that type's release function frees the same type")
    R.rule("release", "a release function rebuilds the Box of its argument exactly once on every path where it is not NULL, drops it, and does not forget it")
    R.rule("no-free", "no other function takes ownership of an argument (Box::from_raw, drop_in_place, ptr::read)")
    R.rule("one-release", "each handle type of the headers that some function gives away has exactly one release function")
    R.rule("keeps-alive", "an object given away that borrows from another one also holds a counted handle to it, declared after the borrowing field so that it is dropped last")
    H = headers.load(F.repo)
    ex = exports(F)
    frees = {}
    gives = {}
    for k, f in ex:
        b = F.bodies[k]
        where = "%s:%d" % (f["file"], f["line"])
        E = explorer(F)
        try:
            rs = E.run(b)
        except Limit:
            R.bad("returned-pointer", f["sym"] + "|limit", "%s is too large to be explored" % f["sym"], where)
            continue
        # -------- what is handed out
        outs = []
        if F.types[f["out"]]["k"] == "ptr":
            outs.append(("returned", None, f["out"]))
        for i, t in enumerate(f["in"]):
            if F.types[t]["k"] == "ptr" and F.types[t]["mut"] and F.types[F.types[t]["t"]]["k"] == "ptr":
                outs.append(("stored", i, F.types[t]["t"]))
        for how, i, ty in outs:
            bad = set()
            okty = set()
            n = 0
            for s, rv in rs:
                v = rv if i is None else s.heap.get((("arg", i + 1), ()))
                if v is None:
                    continue
                v = strip_cast(v)
                n += 1
                r = region(E, s, v)
                if r == LOCAL:
                    bad.add("points into a local of the call, gone when it returns")
                elif r == UNKNOWN:
                    bad.add("has an origin that could not be determined")
                elif temp_borrow(F, E, s, v):
                    bad.add("borrows from a temporary value")
                if v[0] == "own":
                    pointee = F.types[ty]["t"]
                    h = H.handle_given(f["sym"], i)
                    gives.setdefault((h, pointee if F.types[pointee]["k"] == "adt" else None), []).append((f["sym"], where))
                    inner = v[1]
                    it = v[2]
                    if it is not None and not same_type(F, it, pointee):
                        R.bad("fresh-type", f["sym"], "%s gives away a %s as a pointer to %s" % (f["sym"], F.tys(it), F.tys(pointee)), where)
                    else:
                        okty.add(ty)
                    if inner[0] != "box":
                        bad.add("is given away but does not come from a fresh Box")
                    elif has_lifetime(F, pointee) and inner[1][0] == "agg":
                        fs = inner[1][4]
                        order = [j for j, x in enumerate(fs) if find_clone(x)]
                        tyf = [x["t"] for x in F.adts[F.types[pointee]["d"]]["v"][0]["f"]] if F.types[pointee]["d"] in F.adts else []
                        borrow = [j for j, tt in enumerate(tyf) if has_lifetime(F, tt)]
                        if not order:
                            R.bad("keeps-alive", f["sym"], "%s gives away a %s that borrows from its argument without keeping it alive" % (f["sym"], F.tys(pointee)), where)
                        elif borrow and max(borrow) > min(order):
                            R.bad("keeps-alive", f["sym"] + "|order", "%s: the handle keeping the borrowed object alive is dropped before the field borrowing from it" % f["sym"], where)
                        else:
                            R.ok("keeps-alive")
                    elif has_lifetime(F, pointee):
                        R.bad("keeps-alive", f["sym"], "%s gives away a %s whose construction could not be followed" % (f["sym"], F.tys(pointee)), where)
            R.ok("fresh-type", len(okty))
            for w in sorted(bad):
                R.bad("returned-pointer", "%s|%s" % (f["sym"], w), "%s: the %s pointer %s" % (f["sym"], how, w), where)
            if not bad:
                R.ok("returned-pointer")
        # -------- release
        is_release = f["sym"].endswith("_release") or f["sym"].endswith("_free")
        bad = set()
        for s, rv in rs:
            fr = [x for x in s.log if x[0] == "from_raw"]
            raw = [x for x in s.log if x[0] == "drop_in_place" or x[0] == "ptr-read" and not scalar_ptr(F, x[5])]
            if not is_release:
                for x in fr + raw:
                    if region(E, s, x[1]) != OWN:
                        bad.add("takes ownership of %s" % (argname(b, x[1][1] - 1) if x[1][0] == "arg" else "a caller's object"))
                continue
            a = ("arg", 1)
            if s.facts.get(("isnull", a)) is True:
                if fr:
                    bad.add("frees on the NULL path")
                continue
            mine = [x for x in fr if x[1] == a]
            if len(mine) != 1 or len(fr) != 1:
                bad.add("frees its argument %d times on a path" % len(mine))
                continue
            x = mine[0]
            if not same_type(F, x[2], F.types[f["in"][0]]["t"]):
                bad.add("frees a %s through a pointer to %s" % (F.tys(x[2]), F.tys(F.types[f["in"][0]]["t"])))
            bx = ("boxraw", a, x[2])
            if any(y[0] == "forget" and contains(y[1], bx) for y in s.log) or contains(rv, bx):
                bad.add("does not free its argument: the Box is forgotten")
            dr = [y for y in s.log if y[0] == "drop" and contains(y[1], bx)]
            if len(dr) < 1:
                bad.add("never drops the Box of its argument")
            if raw:
                bad.add("also destroys its argument by other means")
        rule = "release" if is_release else "no-free"
        for w in sorted(bad):
            R.bad(rule, "%s|%s" % (f["sym"], w), "%s %s" % (f["sym"], w), where)
        if not bad:
            R.ok(rule)
        if is_release:
            h = H.param_handle(f["sym"], 0)
            frees.setdefault(h, []).append(f["sym"])
    for (h, pt), fns in sorted(gives.items(), key=str):
        if h is None:
            # exported but not in the headers: a release function for the type must exist
            rel = [r for k2, f2 in ex for r in [f2["sym"]] if any(r in x for x in frees.values()) and same_type(F, F.types[f2["in"][0]]["t"], pt)]
            R.check(len(rel) >= 1, "one-release", "type|" + F.tys(pt), "%s gives away a %s that no function releases" % (fns[0][0], F.tys(pt)), fns[0][1])
            continue
        rel = frees.get(h, [])
        if len(rel) != 1:
            R.bad("one-release", str(h), "%s (given away by %s) has %d release functions: %s" % (h, fns[0][0], len(rel), ", ".join(rel)), fns[0][1])
        else:
            R.ok("one-release")
    R.floor("returned-pointer", 24)
    R.floor("release", 6)
    R.floor("fresh-type", 9)
    R.floor("keeps-alive", 1)
    R.floor("one-release", 5)


def scalar_ptr(F, t):
    return t is not None and F.types[t]["k"] in ("ptr", "ref") and F.types[F.types[t]["t"]]["k"] in ("int", "float", "bool", "char")


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        return any(contains(y, x) for y in v)
    return False


def same_type(F, a, b):
    """Same type up to lifetimes."""
    if a == b:
        return True
    import re
    f = lambda t: re.sub(r"'[a-z_0-9]+", "'_", F.tys(t)).replace("<'_>", "")
    return f(a) == f(b)


def temp_borrow(F, E, s, v, depth=0):
    """A chain of reference-returning calls that starts at an owned temporary (moved into the call)."""
    v = strip_cast(v)
    if depth > 40 or not isinstance(v, tuple) or not v:
        return False
    if v[0] == "call" and v[2]:
        a = strip_cast(v[2][0])
        if isinstance(a, tuple) and a[0] == "call" and owned_result(F, E, a):
            # consuming combinators and Option/Result carrying a reference are fine
            t = E.vtypes[a]
            if not carries_ref(F, t):
                return True
        return temp_borrow(F, E, s, a, depth + 1)
    if v[0] == "field":
        return temp_borrow(F, E, s, v[1], depth + 1)
    return False


def carries_ref(F, t):
    ty = F.types[t]
    if ty["k"] in ("ref", "ptr", "fnptr"):
        return True
    if "'" in ty["s"] or "&" in ty["s"]:
        return True
    return False
