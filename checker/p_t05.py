"""T05: the attributes of an image are never crossed."""
import re
import flow
from expr import X, last
from mir import pl

SKIP = ("/tests", "mp4::parse")

PEEL = {"clone", "copied", "cloned", "as_ref", "as_deref", "deref", "borrow", "into", "from", "to_owned", "to_vec",
        "as_slice", "as_str", "unwrap", "get", "as_mut", "deref_mut"}


def run(F, R):
    R.rule("labels", "following every labelled value through bindings, arithmetic, closures and calls, none reaches "
                     "a field, parameter, accessor, stride or comparison declared for another attribute")
    R.rule("names", "an accessor, setter or constructor named for a field reads or writes that field")
    found = {}

    def rep(b, line, key, msg, stack):
        found.setdefault("%s|%s" % (b.nice.replace("libopenraw::", ""), key), (b, line, msg, stack))

    fl = flow.Flow(F, rep, SKIP)
    n = 0
    for k, b in sorted(F.bodies.items()):
        if b.kind == "fn" and not any(s in k for s in SKIP):
            fl.run_body(k, [{} for _ in range(b.argc)])
            n += 1
    ran = {m[0] for m in fl.memo}
    for k, b in sorted(F.bodies.items()):
        if b.kind == "closure" and k not in ran and not any(s in k for s in SKIP):
            fl.run_body(k, [{} for _ in range(b.argc)])
            n += 1
    bad = set()
    for key, (b, line, msg, stack) in sorted(found.items()):
        via = " <- ".join(F.nice(s).replace("libopenraw::", "") for s in reversed(stack[:-1]))
        R.bad("labels", key, "%s%s" % (msg, " (called from %s)" % via if via else ""), b.where(line))
        bad.add(key)
    R.ok("labels", len(fl.n_labelled))
    R.note("%d functions, %d function contexts, %d declared places, %d of them receive a labelled value, %d tags of the table read"
           % (n, len(fl.memo), len(fl.n_sinks), len(fl.n_labelled), len(fl.tags_seen & set(flow.TAGS))))
    if fl.full:
        R.note("more than %d combinations of labels: %s" % (flow.MAXCTX, ", ".join(sorted(fl.full))[:300]))
    R.floor("labels", 200)
    if len(fl.tags_seen & set(flow.TAGS)) < 25:
        R.fail("labels", "tags", "only %d tags of the table are read by name" % len(fl.tags_seen & set(flow.TAGS)), "-")

    names(F, R)
    neutral(F, R)


def levels(e):
    """(numerator, divisor) of a quotient."""
    while e and e[0] in ("cast", "some"):
        e = e[-1] if e[0] == "cast" else e[1]
    return e if e and e[0] == "bin" and e[1] == "Div" else None


def bare(e):
    """The expression without its casts."""
    if isinstance(e, tuple):
        if e and e[0] == "cast":
            return bare(e[2])
        return tuple(bare(x) for x in e)
    return e


def known(e):
    """An expression made of constants only."""
    e = bare(e)
    return e[0] == "c" or (e[0] == "bin" and all(known(x) for x in e[2:]))


def neutral(F, R):
    """White balance: three or four floats of which the red and the blue are quotients."""
    R.rule("neutral", "in a white balance, the value of each colour is the quotient by its own level: the divisors of "
                      "red and blue are different parts of the data, and neither is also the dividend")
    for k, b in sorted(F.bodies.items()):
        if any(s in k for s in SKIP):
            continue
        x = None
        for bb, i, s in b.stmts():
            if bb not in b.reach or s["k"] != "=" or s["r"]["k"] != "agg" or s["r"].get("ak") != "array" or len(s["r"]["ops"]) not in (3, 4):
                continue
            ops = s["r"]["ops"]
            if F.types[b.op_ty(ops[0])]["k"] != "float":
                continue
            x = x or X.of(F, b)
            es = [x.op(o) for o in ops]
            red, blue = levels(es[0]), levels(es[2]) or (levels(es[3]) if len(es) == 4 else None)
            if not red or not blue or known(red[3]) or known(blue[3]):
                continue
            r, n1, u, n2 = bare(red[3]), bare(red[2]), bare(blue[3]), bare(blue[2])
            what = None
            if r == u:
                what = "red and blue are divided by the same value"
            elif r == n1 or u == n2:
                what = "a level is divided by itself"
            elif (n1 == u or n2 == r):
                what = "the level of one colour is the dividend of the other"
            R.check(what is None, "neutral", "%s|%s" % (b.nice, what), "in the white balance %s" % what, b.where(s["l"]))
    R.floor("neutral", 8)


def names(F, R):
    for k, b in sorted(F.bodies.items()):
        if any(s in k for s in SKIP) or b.kind != "fn":
            continue
        i = F.fns.get(k, {})
        x = X.of(F, b)
        constructors(F, R, b)
        if i.get("self") is None:
            continue
        st = F.types[F.strip_ref(i["self"])]
        if st["k"] != "adt" or st["d"] not in F.adts or not F.adts[st["d"]]["local"] or F.adts[st["d"]]["kind"] != "struct":
            continue
        fs = F.adts[st["d"]]["v"][0]["f"]
        idx = {f["n"]: j for j, f in enumerate(fs)}
        name = last(k)
        if b.argc == 1 and name in idx:
            e = returned(b, x)
            j = own_field(F, b, e)
            if j is not None:
                want = idx[name]
                same = j < len(fs) and fs[j].get("t") == fs[want].get("t")
                R.check(j == want or not same, "names", "%s|returns %s" % (b.nice, fs[j]["n"] if j < len(fs) else j),
                        "the accessor %s returns the field %s" % (name, fs[j]["n"] if j < len(fs) else j), b.where())
        m = re.match(r"^set_(.*)$", name)
        if m and m.group(1) in idx and b.argc == 2:
            want = idx[m.group(1)]
            wrote = set()
            for bb, _, s in b.stmts():
                if s["k"] == "=" and s["p"][0] == 1 and len(s["p"][1]) >= 2 and s["p"][1][0] == "*":
                    e = s["p"][1][1]
                    if not isinstance(e, str) and e[0] == "f":
                        wrote.add(e[1])
            if wrote:
                others = sorted(fs[j]["n"] for j in wrote if j != want and fs[j].get("t") == fs[want].get("t"))
                R.check(want in wrote or not others, "names", "%s|writes %s" % (b.nice, ",".join(others)),
                        "the setter %s writes %s and not %s" % (name, ", ".join(others), m.group(1)), b.where())


def constructors(F, R, b):
    """S { a: b, b: a } with parameters named like the fields."""
    ps = {b.lname(i): i for i in range(1, b.argc + 1) if b.lname(i)}
    for bb, _, s in b.stmts():
        if s["k"] != "=" or s["r"]["k"] != "agg" or s["r"].get("ak") != "adt":
            continue
        a = F.adts.get(s["r"]["d"])
        if not a or not a["local"]:
            continue
        fs = a["v"][s["r"].get("v") or 0]["f"]
        names = {f["n"] for f in fs}
        if len(names & set(ps)) < 2:
            continue
        for f, o in zip(fs, s["r"]["ops"]):
            l = root(b, o)
            pn = b.lname(l) if l is not None and 1 <= l <= b.argc else None
            if pn is None or pn not in names or f["n"] not in ps:
                continue
            R.check(pn == f["n"], "names", "%s|%s.%s<-%s" % (b.nice, last(s["r"]["d"]), f["n"], pn),
                    "the parameter %s is stored in the field %s of %s" % (pn, f["n"], last(s["r"]["d"])), b.where(s.get("l")))


def root(b, o, d=0):
    """The parameter an operand is a copy (or conversion) of."""
    while d < 10 and o["k"] in ("copy", "move") and not o["p"][1]:
        l = o["p"][0]
        if 1 <= l <= b.argc:
            return l
        sd = b.single_def(l)
        if not sd:
            return None
        r = sd[2]
        if r.get("k") == "use" or r.get("k") == "cast":
            o = r["o"]
        else:
            return None
        d += 1
    return None


def returned(b, x):
    ds = b.defs.get(0, [])
    if len(ds) != 1:
        return None
    return x.op({"k": "copy", "p": [0, []]}) if False else x.local(0) if hasattr(x, "local") else x.op({"k": "copy", "p": [0, []]})


def own_field(F, b, e, d=0):
    """Index of the field of self that expression e is (a copy, borrow or conversion of)."""
    while isinstance(e, tuple) and d < 10:
        d += 1
        if e[0] == "f":
            return e[2] if e[1] == ("p", 1) else None
        if e[0] == "call" and e[1] in PEEL and len(e) == 3:
            e = e[2]
            continue
        if e[0] in ("cast",):
            e = e[2]
            continue
        return None
    return None
