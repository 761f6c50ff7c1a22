"""C05: error reports of the C API agree with the outcome."""
from capi import *

OR_ERROR = "capi::or_error"


def find_adt(F, tail):
    return [d for d in F.adts if d.endswith("::" + tail) or d == tail]


def run(F, R):
    R.rule("error-param", "on every path of a function with an error out-parameter that is not NULL, an error code is stored through it; the stored code is NONE if and only if the returned pointer is not NULL")
    R.rule("result-param", "a function that returns an error code returns NONE only on paths where each non-NULL result parameter has been written, and no path after a failed library call reports NONE")
    R.rule("error-map", "the conversions between library errors and C error codes: only the no-error value maps to NONE and every C code survives the round trip through the library error")
    R.rule("no-error-value", "the no-error value of the library error type is built only by the conversion from C")
    oe = find_adt(F, "or_error")
    if len(oe) != 1:
        R.bad("error-map", "anchor", "the type or_error was not found", "-")
        return
    oe = oe[0]
    codes = [(v["discr"], v["n"]) for v in F.adts[oe]["v"]]

    def is_none(v):
        return v[0] == "agg" and v[2] == oe and F.adts[oe]["v"][v[3]]["discr"] == 0

    def is_code(v):
        return v[0] == "agg" and v[2] == oe

    froms = {}
    err = None
    for k, f in F.fns.items():
        if f.get("trait_item") == "core::convert::From::from" and k in F.bodies and F.adt_path(f["self"]) == oe:
            froms["to"] = k
            err = F.adt_path(f["in"][0])
    for k, f in F.fns.items():
        if f.get("trait_item") == "core::convert::From::from" and k in F.bodies:
            if F.adt_path(f["in"][0]) == oe and "to" in froms and F.adt_path(f["self"]) == err:
                froms["back"] = k
    if len(froms) != 2:
        R.bad("error-map", "anchor", "the conversions between the library error and or_error were not found", "-")
        return
    to = conv(F, froms["to"], err, oe)
    back = conv(F, froms["back"], oe, err)
    none = [i for i, v in enumerate(F.adts[oe]["v"]) if v["discr"] == 0]
    noneerr = back.get(none[0]) if none else None

    def feasible(E, s):
        """Calls never fail with the no-error value (rule no-error-value)."""
        for k, v in s.facts.items():
            if k[0] == "variant" and v == noneerr and isinstance(k[1], tuple) and k[1][0] == "field" and k[1][2] == ("f", 0):
                t = E.vtypes.get(k[1][1])
                if t is not None and F.adt_path(t) == "core::result::Result" and F.adt_path(F.types[t]["a"][1]) == err:
                    return False
        return True

    for k, f in exports(F):
        b = F.bodies[k]
        where = "%s:%d" % (f["file"], f["line"])
        errp = [i for i, t in enumerate(f["in"]) if F.types[t]["k"] == "ptr" and F.adt_path(F.types[t]["t"]) == oe]
        reterr = F.adt_path(f["out"]) == oe
        if not errp and not reterr:
            continue
        E = explorer(F)
        try:
            rs = [x for x in E.run(b) if feasible(E, x[0])]
        except Limit:
            R.bad("error-param", f["sym"] + "|limit", "%s is too large to be explored" % f["sym"], where)
            continue
        rety = F.types[f["out"]]
        for i in errp:
            a = ("arg", i + 1)
            problems = set()
            n = 0
            for s, rv in rs:
                if s.facts.get(("isnull", a)) is True:
                    continue
                w = s.heap.get((a, ()))
                n += 1
                if w is None:
                    problems.add("a path stores no error code through it")
                    continue
                if rety["k"] == "ptr":
                    nul = E.nullness(s, strip_cast(rv))
                    if is_none(w) and nul is not False:
                        problems.add("a path stores NONE but may return NULL")
                    elif not is_none(w) and nul is False:
                        problems.add("a path stores a failure code but returns an object")
                    elif nul is None:
                        problems.add("a path returns a pointer that may or may not be NULL")
                if not is_code(w):
                    problems.add("the code stored on a path is not determined")
                if is_none(w) and failed_call(F, E, s, err):
                    problems.add("NONE is stored after a library call has failed")
            if problems:
                for p in sorted(problems):
                    R.bad("error-param", "%s|%s" % (f["sym"], p), "%s: error parameter: %s" % (f["sym"], p), where)
            else:
                R.ok("error-param")
        if reterr:
            outs = [i for i, t in enumerate(f["in"]) if out_param(F, t)]
            problems = set()
            n = 0
            for s, rv in rs:
                n += 1
                if not is_code(rv):
                    problems.add("the code returned on a path is not determined")
                    continue
                if is_none(rv):
                    for i in outs:
                        a = ("arg", i + 1)
                        if s.facts.get(("isnull", a)) is True:
                            continue
                        if not written(s, a) and not spread(F, b, i):
                            problems.add("NONE is returned on a path that leaves `%s` unwritten" % argname(b, i))
                    if failed_call(F, E, s, err):
                        problems.add("NONE is returned after a library call has failed")
                else:
                    for i in outs:
                        w = s.heap.get((("arg", i + 1), ()))
                        if w is not None and w[0] == "own":
                            problems.add("a failure is returned although an object was stored in `%s`" % argname(b, i))
            for p in sorted(problems):
                R.bad("result-param", "%s|%s" % (f["sym"], p), "%s: %s" % (f["sym"], p), where)
            if not problems:
                R.ok("result-param")
    # conversions
    fto, fb = F.fns[froms["to"]], F.fns[froms["back"]]
    wto, wb = "%s:%d" % (fto["file"], fto["line"]), "%s:%d" % (fb["file"], fb["line"])
    ev = [v["n"] for v in F.adts[err]["v"]]
    cv = [v["n"] for v in F.adts[oe]["v"]]
    for i, n in enumerate(ev):
        c = to.get(i)
        if c is None:
            R.bad("error-map", "undetermined|" + n, "the C code of error %s is not determined" % n, wto)
        elif (c in none) != (i == noneerr):
            R.bad("error-map", "none|" + n, "error %s maps to %s" % (n, cv[c]), wto)
        else:
            R.ok("error-map")
    for i, n in enumerate(cv):
        e = back.get(i)
        if e is None:
            R.bad("error-map", "undetermined|" + n, "the error of C code %s is not determined" % n, wb)
        elif to.get(e) != i:
            R.bad("error-map", "roundtrip|" + n, "C code %s converts to error %s, which converts to %s" % (n, ev[e], cv[to[e]] if to.get(e) is not None else "?"), wto)
        else:
            R.ok("error-map")
    # who builds Error::None
    cnt = 0
    for bid, b in F.bodies.items():
        for bb, i, s in b.stmts():
            if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == err:
                cnt += 1
                if noneerr is not None and s["r"].get("v") == noneerr and bid != froms["back"]:
                    if derived(F, b):
                        continue
                    R.bad("no-error-value", b.nice, "%s builds the error value that means no error" % b.nice, "%s:%d" % (b.file, s["l"]))
                else:
                    R.ok("no-error-value")
    R.floor("error-param", 3)
    R.floor("result-param", 12)
    R.floor("error-map", 24)
    R.floor("no-error-value", 100)


def derived(F, b):
    f = F.fns.get(b.id, {})
    return (f.get("trait") or "").endswith("clone::Clone")


def out_param(F, t):
    t = F.types[t]
    if t["k"] != "ptr" or not t["mut"]:
        return False
    return F.types[t["t"]]["k"] in ("int", "float", "ptr", "bool")


def written(s, a):
    for k in s.heap:
        if k[0] == a:
            return True
    for x in s.log:
        if x[0] in ("copied-to", "from_raw_parts_mut") and x[1] == a:
            return True
    return False


def failed_call(F, E, s, err):
    for k, v in s.facts.items():
        if k[0] == "variant" and isinstance(k[1], tuple) and k[1][0] == "call" and v == 1:
            t = E.vtypes.get(k[1])
            if t is not None and F.adt_path(t) == "core::result::Result" and F.adt_path(F.types[t]["a"][1]) == err:
                return k[1][1]
    return None


def conv(F, path, src, dst):
    """variant index of src -> variant index of dst (None when it varies)."""
    res = {}
    b = F.bodies[path]
    for i, v in enumerate(F.adts[src]["v"]):
        E = explorer(F)
        a = ("agg", "adt", src, i, tuple(("payload", i, j) for j in range(len(v.get("f", [])))))
        out = set()
        for s, r in E.run(b, [a]):
            out.add(r[3] if r[0] == "agg" and r[2] == dst else None)
        res[i] = out.pop() if len(out) == 1 else None
    return res
