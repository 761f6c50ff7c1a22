"""C01: the C API tolerates NULL for every pointer argument."""
from capi import *


def failure_value(F, v, ty):
    """Is abstract return value v (of type ty) a failure result?"""
    v = strip_cast(v)
    if v[0] == "null":
        return True
    if v[0] == "int":
        return v[1] <= 0 or F.types[ty]["k"] == "adt"
    if v[0] == "agg" and v[1] == "adt":
        d = v[2]
        if d in ("core::option::Option",):
            return v[3] == 0
        a = F.adts.get(d)
        if a and a["kind"] == "enum":
            vv = a["v"][v[3]]
            if d.endswith("or_error"):
                return vv["discr"] != 0
            return True
    return None


def run(F, R):
    R.rule("nullable-type", "every pointer-like parameter of an exported function has a type that admits NULL (raw pointer or Option of a reference, Box, NonNull or fn pointer)")
    R.rule("null-deref", "on every abstract path of every exported function (local helpers and closures followed), a pointer parameter is dereferenced, or handed to code that dereferences it, only after it has been found non-NULL")
    R.rule("null-panic", "assuming a pointer parameter NULL makes no panic reachable that is not reachable when it is valid")
    R.rule("null-result", "when the object parameter (the first) is NULL the function returns a failure value: NULL, 0, or an error code other than OR_ERROR_NONE")
    ex = exports(F)
    for k, f in ex:
        b = F.bodies[k]
        ptrs = []
        for i, t in enumerate(f["in"]):
            ty = F.types[t]
            key = "%s|%s" % (f["sym"], argname(b, i))
            where = "%s:%d" % (f["file"], f["line"])
            if ty["k"] == "ref" or ty["k"] == "fnptr" or (ty["k"] == "adt" and (ty["d"].endswith("boxed::Box") or ty["d"].endswith("NonNull"))):
                R.bad("nullable-type", key, "parameter `%s` of %s has type %s, which is undefined behaviour for NULL" % (argname(b, i), f["sym"], ty["s"]), where)
            elif ty["k"] == "ptr" or is_nullable_ref(F, t):
                R.ok("nullable-type")
                ptrs.append(i)
        # every combination of unknown arguments
        E = explorer(F)
        try:
            E.run(b)
        except Limit:
            R.bad("null-deref", f["sym"] + "|limit", "%s is too large to be explored" % f["sym"], where)
            continue
        flagged = set()
        for kind, v, body, line, how, n in E.events:
            flagged.add((root_arg(v), body.file, line, how))
        for i in ptrs:
            hits = sorted(x for x in flagged if x[0] == i + 1)
            if hits:
                for _, file, line, how in hits[:1]:
                    R.bad("null-deref", "%s|%s" % (f["sym"], argname(b, i)), "parameter `%s` of %s is %s while it may be NULL" % (argname(b, i), f["sym"], how), "%s:%d" % (file, line))
            else:
                R.ok("null-deref")
        # one pointer NULL at a time
        base = None
        for i in ptrs:
            if base is None:
                base = panics(F, b, {})
            isp = is_ptr(F, f["in"][i])
            nullv = ("null",) if isp else ("agg", "adt", "core::option::Option", 0, ())
            pn, rets = panics(F, b, {i: nullv}, True)
            good = panics(F, b, {i: ("own", ("valid", i), None)} if isp else {i: ("agg", "adt", "core::option::Option", 1, (("own", ("valid", i), None),))})
            new = pn - good
            if new:
                x = sorted(new)[0]
                R.bad("null-panic", "%s|%s" % (f["sym"], argname(b, i)), "%s panics (%s) when `%s` is NULL" % (f["sym"], x[2], argname(b, i)), "%s:%d" % (x[0], x[1]))
            else:
                R.ok("null-panic")
            if i == 0 and F.types[f["out"]]["s"] != "()":
                badr = [r for r in rets if not failure_value(F, r, f["out"])]
                R.check(not badr, "null-result", "%s|%s" % (f["sym"], argname(b, i)), "%s returns %s, not a failure value, when `%s` is NULL" % (f["sym"], str(badr[:1])[:100], argname(b, i)), where)
    R.floor("nullable-type", 95)
    R.floor("null-result", 55)
    R.note("exported functions analysed: %d" % len(ex))
    if len(ex) < MIN_EXPORTS:
        R.bad("nullable-type", "exports", "only %d exported functions were found" % len(ex), "-")


def root_arg(v):
    v = strip_cast(v)
    while isinstance(v, tuple) and v[0] == "call" and is_ptr_arith(v[1]):
        v = strip_cast(v[2][0])
    if isinstance(v, tuple) and v[0] == "arg":
        return v[1]
    return v


def panics(F, b, fixed, rets=False):
    E = explorer(F)
    args = [fixed.get(i, ("arg", i + 1)) for i in range(b.argc)]
    try:
        rs = E.run(b, args)
    except Limit:
        rs = []
    p = {(x[0].file, x[1], x[2]) for x in E.panics}
    if rets:
        return p, [r for _, r in rs]
    return p
