"""C04: strings and string lists crossing to C are NUL terminated."""
from capi import *


def cchar(F, t):
    t = F.types[t]
    return t["k"] == "ptr" and F.types[t["t"]]["k"] == "int" and F.types[t["t"]]["n"] == "i8"


def cchar_list(F, t):
    t = F.types[t]
    return t["k"] == "ptr" and cchar(F, t["t"])


GOOD = ("CStr::as_ptr", "CString::into_raw", "CString::as_ptr")


def good_string(F, E, s, v):
    """Is v NULL or a pointer to a NUL terminated string?  Returns (ok, why)."""
    v = strip_cast(v)
    if v[0] == "null":
        return True, ""
    if E.nullness(s, v) is True:
        return True, ""
    if v[0] == "call":
        n = v[1].replace("core::ffi::c_str::", "").replace("alloc::ffi::c_str::", "")
        if "ffi" in v[1] and any(n.endswith(g) for g in GOOD):
            return True, ""
        return False, "comes from %s, which does not guarantee a terminating NUL" % v[1]
    if v[0] == "const":
        c = v[1].v
        if isinstance(c, dict) and "ref" in c and isinstance(c["ref"], dict):
            a = c["ref"].get("arr")
            if a and a[-1] == 0:
                return True, ""
        if isinstance(c, dict) and "str" in c and c["str"].endswith("\0"):
            return True, ""
        return False, "is a constant without a terminating NUL"
    if v[0] == "mem" or v[0] == "field":
        return False, "is loaded from memory and its origin is unknown"
    return False, "has an unknown origin (%s)" % v[0]


def run(F, R):
    R.rule("string", "every char pointer an exported function returns or stores for the caller is, on every path, NULL or obtained from a CStr, a CString or a NUL-terminated constant")
    R.rule("string-list", "every char pointer list returned comes from a static vector whose elements are such strings and whose last element, pushed after all others, is NULL")
    lists = set()
    for k, f in exports(F):
        b = F.bodies[k]
        where = "%s:%d" % (f["file"], f["line"])
        outs = [i for i, t in enumerate(f["in"]) if cchar_list(F, t) and F.types[t]["mut"]]
        isstr, islist = cchar(F, f["out"]), cchar_list(F, f["out"])
        if not (outs or isstr or islist):
            continue
        E = explorer(F)
        try:
            rs = E.run(b)
        except Limit:
            R.bad("string", f["sym"] + "|limit", "%s is too large to be explored" % f["sym"], where)
            continue
        why = set()
        for s, rv in rs:
            if isstr:
                ok, w = good_string(F, E, s, rv)
                if not ok:
                    why.add("the returned string " + w)
            for i in outs:
                w = s.heap.get((("arg", i + 1), ()))
                if w is not None:
                    ok, t = good_string(F, E, s, w)
                    if not ok:
                        why.add("the string stored in `%s` %s" % (argname(b, i), t))
            if islist:
                v = strip_cast(rv)
                if v[0] == "null":
                    continue
                st = find_static(v)
                if st is None:
                    why.add("the returned list does not come from a static")
                else:
                    lists.add((st, f["sym"]))
        for w in sorted(why):
            R.bad("string", "%s|%s" % (f["sym"], w), "%s: %s" % (f["sym"], w), where)
        if not why:
            R.ok("string")
    for st, sym in sorted(lists):
        check_list(F, R, st, sym)
    R.rule("unchecked", "a CStr or CString is built without the check for the terminating NUL only from a constant that ends with one")
    n = 0
    for k, b in F.bodies.items():
        for bb, t in b.calls():
            m = (t.get("res") or t.get("f") or "").split("::")[-1]
            if m in ("from_bytes_with_nul_unchecked", "from_vec_with_nul_unchecked"):
                n += 1
                a = const_bytes(b, t["a"][0])
                if a and a[-1] == 0:
                    R.ok("unchecked")
                else:
                    R.bad("unchecked", "%s|%s" % (b.nice, m), "%s: %s of bytes not known to end with a NUL" % (b.nice, m), "%s:%s" % (b.file, t["l"]))
    R.note("%d bodies searched for C strings built without a check, %d found" % (len(F.bodies), n))
    R.floor("string", 7)
    R.floor("string-list", 2)


def const_bytes(b, o, n=0):
    """The bytes of a constant operand."""
    if o["k"] == "const":
        v = o.get("v")
        a = v["ref"].get("arr") if isinstance(v, dict) and isinstance(v.get("ref"), dict) else None
        return a or (list(v["str"].encode()) if isinstance(v, dict) and "str" in v else None)
    if n > 6 or [e for e in o["p"][1] if e != "*"]:
        return None
    d = b.single_def(o["p"][0])
    if d and d[2]["k"] in ("use", "cast"):
        return const_bytes(b, d[2]["o"], n + 1)
    if d and d[2]["k"] == "ref":
        return const_bytes(b, {"k": "copy", "p": d[2]["p"]}, n + 1)
    return None


def find_static(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "static":
            return v[1]
        for x in v:
            r = find_static(x)
            if r:
                return r
    return None


def closure_tree(F, root):
    out = []
    st = [root]
    while st:
        k = st.pop()
        if k in out:
            continue
        out.append(k)
        b = F.bodies.get(k)
        if b is None:
            continue
        for k2 in F.bodies:
            if k2.startswith(k + "::{closure"):
                st.append(k2)
    return out


def check_list(F, R, st, sym):
    c = F.consts.get(st, {})
    where = "%s:%s" % (c.get("file", "?"), c.get("line", "?"))
    name = st.split("::")[-1]
    tree = [k for k in F.bodies if k.startswith(st + "::{closure") or k == st]
    problems = set()
    pushes = []
    seen_null = False
    for k in tree:
        b = F.bodies[k]
        if "promoted" in k:
            continue
        E = explorer(F)
        # element producers
        rt = b.lty(0)
        if cchar(F, rt) and b.kind == "closure":
            for s, rv in E.run(b):
                ok, w = good_string(F, E, s, rv)
                if not ok:
                    problems.add("an element " + w)
        # the vector
        muts = []
        for bb, t in b.calls():
            n = b.callee(t) or ""
            if not t["a"]:
                continue
            ty = b.op_ty(t["a"][0])
            if ty is None:
                continue
            tt = F.types[ty]
            if tt["k"] == "ref" and tt["mut"] and "Vec<*const i8" in F.tys(tt["t"]):
                muts.append((bb, t, n))
        for bb, t, n in muts:
            if n.endswith("::push"):
                isnull = is_null_operand(F, b, t["a"][1])
                if isnull:
                    after = b.reachable_from(t["t"]) if t.get("t") is not None else set()
                    if any(x in after for x, _, _ in muts):
                        problems.add("the list is changed after its NULL entry was pushed")
                    rets = [x for x in b.reach if b.term(x)["k"] == "return"]
                    if all(bb in b.dom[x] for x in rets):
                        seen_null = True
                else:
                    v = string_operand(F, b, t["a"][1])
                    if not v:
                        problems.add("an element that is not known to be NUL terminated is pushed")
        # ... or a chain whose second part is once(null)
        for bb, t in b.calls():
            n = b.callee(t) or ""
            if n.endswith("Iterator::chain") and len(t["a"]) == 2:
                d = b.single_def(t["a"][1]["p"][0]) if t["a"][1]["k"] in ("copy", "move") else None
                if d and isinstance(d[2], dict) and d[2].get("k") == "call" and (b.callee(d[2]) or "").endswith("iter::sources::once::once"):
                    if is_null_operand(F, b, d[2]["a"][0]) and not muts:
                        seen_null = True
    if not seen_null:
        problems.add("no NULL entry is added on every path after all other entries")
    for p in sorted(problems):
        R.bad("string-list", "%s|%s" % (name, p), "list %s returned by %s: %s" % (name, sym, p), where)
    if not problems:
        R.ok("string-list")


def is_null_operand(F, b, o):
    v = resolve(F, b, o)
    return v is not None and v[0] == "null"


def string_operand(F, b, o):
    v = resolve(F, b, o)
    return v is not None and v[0] == "good"


def resolve(F, b, o, depth=0):
    if o["k"] == "const":
        v = o.get("v")
        if isinstance(v, dict) and v.get("rawptr") == 0 or v == 0:
            return ("null",)
        return None
    if depth > 10 or o["p"][1]:
        return None
    d = b.single_def(o["p"][0])
    if not d:
        return None
    r = d[2]
    if r["k"] == "call":
        n = b.callee(r) or ""
        if n in ("core::ptr::null", "core::ptr::null_mut"):
            return ("null",)
        if "ffi" in n and any(n.endswith(g) for g in GOOD):
            return ("good",)
        return None
    if r["k"] in ("use", "cast"):
        return resolve(F, b, r["o"], depth + 1)
    return None


