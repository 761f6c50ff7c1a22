"""M02: unsafe code never forges an invalid value or slice."""
from mir import pl
from expr import X, last, subst
from bounds import B, op_array_len, enumerate_len
import inter, cg
from ranges import Ranges, type_range, minus, meet, norm, ALL
from capi import exports

BYTE = ("u8", "i8")
INTS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}


def name(F, t):
    return last(F.nice(t.get("res") or t.get("f") or "?"))


def strip_casts(F, b, o, seen=0):
    """(expression, pointee type id) a raw pointer operand comes from, looking through pointer casts."""
    x = X.of(F, b)
    if o["k"] not in ("copy", "move") or o["p"][1]:
        return x.op(o), pointee(F, b.op_ty(o))
    l = o["p"][0]
    d = b.defs.get(l, [])
    if len(d) != 1 or seen > 12 or l <= b.argc:
        return x.op(o), pointee(F, b.op_ty(o))
    bb, i, rv = d[0]
    if rv["k"] == "call":
        n = name(F, rv)
        if n in ("cast", "cast_mut", "cast_const") and len(rv["a"]) == 1:
            return strip_casts(F, b, rv["a"][0], seen + 1)
        if n in ("as_ptr", "as_mut_ptr") and len(rv["a"]) == 1:
            return x.op(rv["a"][0]), elem_of(F, b.op_ty(rv["a"][0]))
        return x.op(o), pointee(F, b.op_ty(o))
    if rv["k"] == "cast" and rv["c"].startswith("PtrToPtr"):
        return strip_casts(F, b, rv["o"], seen + 1)
    if rv["k"] == "cast" and "Unsize" in rv["c"]:
        return strip_casts(F, b, rv["o"], seen + 1)
    if rv["k"] == "use":
        return strip_casts(F, b, rv["o"], seen + 1)
    if rv["k"] in ("ref", "rawptr"):
        return x.place(rv["p"]), b.place_ty([rv["p"][0], [tuple(e) if not isinstance(e, str) else e for e in rv["p"][1]]])
    return x.op(o), pointee(F, b.op_ty(o))


def pointee(F, t):
    if t is None:
        return None
    k = F.types[t]
    return k["t"] if k["k"] in ("ptr", "ref") else None


def elem_of(F, t):
    """Element type of a (reference to a) slice, array, Vec."""
    while t is not None and F.types[t]["k"] in ("ref", "ptr"):
        t = F.types[t]["t"]
    if t is None:
        return None
    k = F.types[t]
    if k["k"] in ("array", "slice"):
        return k["t"]
    if k["k"] == "adt" and k.get("a"):
        return elem_of(F, k["a"][0]) if k["d"].endswith("Box") else k["a"][0]
    if k["k"] == "str":
        return next((i for i, y in enumerate(F.types) if y["s"] == "u8"), None)
    return None


def plain(F, t, b=None):
    """Every bit pattern of the right size is a value, and there are no padding bytes."""
    if t is None:
        return False
    k = F.types[t]
    if k["k"] in ("int", "float"):
        return True
    if k["k"] == "array":
        return plain(F, k["t"], b)
    if k["k"] == "param" and b is not None:
        return all(plain(F, a) for a in instances(F, b, k["s"]))
    return False


def instances(F, b, pname):
    """Types the generic parameter of b is instantiated with in the crate."""
    out = []
    for cb in F.bodies.values():
        for bb, t in cb.calls():
            if (t.get("res") or t.get("f")) == b.id:
                out += (t.get("ra") or t.get("ta") or [])[-1:] if len(t.get("ra") or t.get("ta") or []) == 1 else (t.get("ra") or t.get("ta") or [])
    return out


def size(F, t):
    return INTS.get(F.tys(t)) if t is not None else None


def view_ok(F, C, b, bb, src, st, dt, ln):
    """ln elements of type dt over the memory of sequence src (elements st): None if exact, else the reason."""
    x = X.of(F, b)
    ln = unc(ln)
    if st is None or dt is None:
        return "the element type of what is viewed is not known"
    if st != dt and F.tys(st) != F.tys(dt):
        if not plain(F, st, b):
            return "memory of %s is viewed as %s" % (F.tys(st), F.tys(dt))
        if F.tys(dt) not in BYTE and size(F, st) != size(F, dt):
            return "memory of %s is viewed as %s" % (F.tys(st), F.tys(dt))
    if not plain(F, dt, b) and F.tys(st) != F.tys(dt):
        return "memory of %s is viewed as %s" % (F.tys(st), F.tys(dt))
    n = x.length(src)
    same = F.tys(st) == F.tys(dt) or (size(F, st) is not None and size(F, st) == size(F, dt))
    if ln[0] == "call@" and last(F.nice(ln[2])) == "size_of_val" and len(ln) > 3 and ln[3] == src:
        return None if same is False or size(F, dt) == 1 else "the length in bytes is used as a number of %s" % F.tys(dt)
    if ln[0] == "call" and ln[1] == "size_of_val" and ln[2] == src:
        return None if size(F, dt) == 1 else "the length in bytes is used as a number of %s" % F.tys(dt)
    BB = B(F, x, x.facts(bb))
    if same:
        if ln == n or (BB.le(ln, n) and BB.le(n, ln)):
            return None
    else:
        for f in size_factors(F, st):
            for k in (("bin", "Mul", n, f), ("bin", "Mul", f, n)):
                if ln == k:
                    return None
    return "the length is %s, not that of %s" % (inter.show(F, b, ln), inter.show(F, b, src))


def size_factors(F, st):
    out = []
    s = size(F, st)
    if s:
        out.append(("c", s))
    out += [e for e in SIZEOF.get(F.tys(st), [])]
    return out


SIZEOF = {}


def collect_sizeof(F):
    """Expressions that stand for size_of::<T>()."""
    SIZEOF.clear()
    for b in F.bodies.values():
        for bb, t in b.calls():
            if name(F, t) == "size_of" and t.get("ta"):
                SIZEOF.setdefault(F.tys(t["ta"][0]), []).append(X.of(F, b).call(t, bb))


def unc(e):
    """Widening casts keep the number."""
    while e[0] == "cast" and e[1] in ("usize", "u64", "u32"):
        e = e[2]
    return e


def param_len(F, C, b, e, depth=0):
    """e is an integer parameter of an exported function, or what a pointer parameter of one points to, unchanged."""
    e = unc(e)
    if e[0] != "p":
        return False
    if b.kind == "closure" and depth < 4:
        return False
    t = F.types[b.lty(e[1])]
    if t["k"] == "ptr":
        t = F.types[t["t"]]
    if t["k"] != "int":
        return False
    return from_export(F, b, e[1], depth)


def below(BB, x, i):
    """Lengths a counter is known to be below."""
    out = set()
    def sub(e):
        if isinstance(e, tuple):
            if e and e[0] == "len":
                out.add(e)
            for y in e:
                sub(y)
    for f in BB.facts:
        sub(f)
    sub(i)
    if i[0] == "f" and i[1][0] == "some":
        n = enumerate_len(BB.F, x, i[1][1])
        if n is not None:
            return list(out | {n})
    return [c for c in out if BB.lt(i, c)]


def within_caller_len(F, C, b, bb, x, ln, lb):
    """ln was found to be at most a length the C caller gave."""
    BB = B(F, x, x.facts(bb))
    for f in x.facts(bb):
        for c in f[1:] if f[0] in ("Lt", "Le", "Gt", "Ge", "Eq") else ():
            lc, le = lift(F, b, c)
            if lc is lb and param_len(F, C, lc, le) and BB.le(ln, c):
                return True
    return False


def from_export(F, b, i, depth=0):
    """Parameter i of b is the same parameter of exported functions."""
    f = F.fns.get(b.id, {})
    if f.get("sym"):
        return True
    if depth > 4:
        return False
    m, unk = inter.callers(F, None)
    if b.id in unk or not m.get(b.id):
        return False
    for cb, cbb, t in m[b.id]:
        if i - 1 >= len(t["a"]):
            return False
        o = captured(F, cb, t["a"][i - 1])
        cb2, e = o
        if e[0] != "p" or not from_export(F, cb2, e[1], depth + 1):
            return False
    return True


def captured(F, b, o):
    """The value of an operand, and if it is a closure's capture the value captured, with the body it belongs to."""
    return lift(F, b, X.of(F, b).op(o))


def lift(F, b, e, depth=0):
    e = unc(e)
    if b.kind == "closure" and depth < 5 and e[0] == "f" and e[1] == ("p", 1):
        for pb in F.bodies.values():
            for bb in pb.reach:
                for s in pb.blocks[bb]["s"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "closure" and s["r"].get("d") == b.id and e[2] < len(s["r"]["ops"]):
                        return lift(F, pb, X.of(F, pb).op(s["r"]["ops"][e[2]]), depth + 1)
    return b, e


def run(F, R):
    R.rule("enum-param", "no exported function takes (by value) a Rust enum or char, nor reads one through a pointer the C caller gives: C can pass any number")
    R.rule("enum-value", "a number is reinterpreted as an enumeration only where interval dataflow shows it to be one of the enumeration's discriminants")
    R.rule("reinterpret", "memory is reinterpreted (transmute, pointer casts) only between plain numbers, or to bytes and opaque pointers")
    R.rule("slice-view", "slice::from_raw_parts[_mut] is given the start and the exact length of one object: a slice (as bytes: size_of_val), or the (pointer, length) parameters of an exported function")
    R.rule("raw-copy", "a raw copy or pointer offset stays within the object: count at most the length of the source array and of the destination")
    R.rule("set-len", "Vec::set_len is given the capacity the vector was created with")
    R.rule("raw-deref", "a raw pointer is dereferenced only as the pointee type the C caller's parameter, or the cell, was declared with")
    R.rule("lifetime", "a function that makes a reference or slice out of a raw pointer returns it only with the lifetime of one of its arguments")
    R.rule("vetted", "every unsafe operation is of a kind one of the rules (of this or another property) judges")
    R.rule("enum-map", "a hand-written conversion of a number to an enumeration never yields the variant of another number that has its own")
    C = None
    collect_sizeof(F)
    for k, f in exports(F):
        b = F.bodies[k]
        for i, t in enumerate(f["in"]):
            ty = F.types[t]
            bad = ty["k"] == "char" or (ty["k"] == "adt" and ty["d"] in F.adts and F.adts[ty["d"]]["kind"] == "enum")
            R.check(not bad, "enum-param", "%s|%s" % (f["sym"], b.lname(i + 1) or i), "%s takes a %s from C by value" % (f["sym"], ty["s"]), "%s:%d" % (f["file"], f["line"]))
    for bid, b in sorted(F.bodies.items()):
        if b.kind == "promoted":
            continue
        x = X.of(F, b)
        fi = F.fns.get(bid, {})
        if b.kind == "fn" and fi.get("free_lt") and not fi.get("sym") and F.types[b.lty(0)]["k"] == "ref" and makes_refs(F, b) and has_ref_arg(F, b):
            R.bad("lifetime", b.nice, "%s returns a reference made from a raw pointer with a lifetime none of its arguments has" % b.nice, "%s:%d" % (b.file, b.line))
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] != "=":
                    continue
                where = "%s:%d" % (b.file, s.get("l", b.line))
                r = s["r"]
                if r["k"] == "cast":
                    cast(F, R, b, bb, x, r, where)
                derefs(F, R, b, bb, x, s, where)
            t = b.blocks[bb]["t"]
            if t["k"] == "call":
                where = "%s:%d" % (b.file, t.get("l", b.line))
                if t.get("u"):
                    unsafe_call(F, R, C, b, bb, x, t, where)
                elif name(F, t) in ("from_raw_parts", "from_raw_parts_mut"):
                    R.bad("vetted", "%s|%s" % (b.nice, name(F, t)), "unknown raw view", where)
    for k, f in sorted(F.fns.items()):
        if k in F.bodies and last(F.nice(k)) in ("from", "try_from", "from_primitive", "try_from_primitive"):
            enum_map(F, R, F.bodies[k])
    R.floor("enum-param", 100)
    R.floor("vetted", 1)
    R.assume("offset and length arithmetic is exact (N04)")
    R.assume("the code multiversion and derive macros generate is sound")


def makes_refs(F, b):
    for bb in b.reach:
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            if name(F, t) in ("from_raw_parts", "from_raw_parts_mut"):
                return True
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=" and s["r"]["k"] == "ref":
                p = s["r"]["p"]
                ty = b.lty(p[0])
                for i, e in enumerate(p[1]):
                    if e == "*" and F.types[ty]["k"] == "ptr":
                        return True
                    ty = b.place_ty((p[0], tuple(tuple(y) if not isinstance(y, str) else y for y in p[1][:i + 1])))
                    if ty is None:
                        break
    return False


def has_ref_arg(F, b):
    return any(F.types[b.lty(i + 1)]["k"] == "ref" for i in range(b.argc))


def enum_of(F, t):
    ty = F.types[t]
    if ty["k"] == "adt" and ty["d"] in F.adts and F.adts[ty["d"]]["kind"] == "enum":
        return F.adts[ty["d"]]
    return None


def cast(F, R, b, bb, x, r, where):
    c = r["c"]
    src, dst = b.op_ty(r["o"]), r["t"]
    if c.startswith("Transmute"):
        key = "%s|%s|%s" % (b.nice, F.tys(src) if src is not None else "?", F.tys(dst))
        a = enum_of(F, dst)
        if a is not None and src is not None and F.types[src]["k"] == "int":
            R.rule("enum-value", R.rules["enum-value"])
            ok = set_of_discr(a)
            got = possible(F, b, bb, x.op(r["o"]), src)
            extra = minus(got, ok)
            R.check(not extra, "enum-value", key, "%s may turn %s into a %s that has no such value" % (b.nice, show_iv(extra), F.tys(dst)), where)
        elif src is not None and plain(F, src) and plain(F, dst):
            R.ok("reinterpret")
        else:
            R.bad("reinterpret", key, "%s reinterprets a %s as a %s" % (b.nice, F.tys(src) if src is not None else "?", F.tys(dst)), where)
    elif c.startswith("PtrToPtr"):
        s, d = pointee(F, src), pointee(F, dst)
        ptr_cast(F, R, b, s, d, where)


def ptr_cast(F, R, b, s, d, where):
    if s is None or d is None:
        R.bad("reinterpret", "%s|ptr" % b.nice, "%s casts a pointer of unknown type" % b.nice, where)
        return
    if F.tys(s) == F.tys(d):
        R.ok("reinterpret")
        return
    ds = F.tys(d)
    opaque = ds.endswith("c_void") or ds == "()" or ds in BYTE
    # out of an array: to its element
    if F.types[s]["k"] in ("array", "slice") and F.tys(F.types[s]["t"]) == ds:
        R.ok("reinterpret")
        return
    same = size(F, s) is not None and size(F, s) == size(F, d)
    R.check(opaque or same, "reinterpret", "%s|%s|%s" % (b.nice, F.tys(s), ds), "%s makes a pointer to %s out of one to %s" % (b.nice, ds, F.tys(s)), where)


def possible(F, b, bb, e, src, depth=0):
    base = type_range(F, src)
    inner = e
    Rg = Ranges(F, b, inner, start=base)
    got = Rg.get(bb)
    x = X.of(F, b)
    if e[0] == "p" and depth < 3 and minus(got, ()) == got:
        # a helper: what the callers give
        fi = F.fns.get(b.id, {})
        m, unk = inter.callers(F, None)
        if not fi.get("reach") and b.id not in unk and m.get(b.id) and b.kind == "fn" and not fi.get("trait_item"):
            tot = ()
            for cb, cbb, t in m[b.id]:
                o = t["a"][e[1] - 1]
                ty = cb.op_ty(o)
                tot = norm(tot + possible(F, cb, cbb, X.of(F, cb).op(o), ty if ty is not None else src, depth + 1))
            got = meet(got, tot)
    if e[0] == "c" and isinstance(e[1], int):
        got = meet(got, ((e[1], e[1]),))
    return got


def set_of_discr(a):
    return norm([(int(v["discr"]), int(v["discr"])) for v in a["v"]])


def show_iv(iv):
    return ", ".join("%d" % a if a == b else "%s..%s" % ("" if a < -(1 << 65) else a, "" if b > 1 << 65 else b) for a, b in iv[:3])


CELL = ("UnsafeCell",)


def derefs(F, R, b, bb, x, s, where):
    """Raw pointer dereferences in a statement."""
    places = [(s["p"], True)]
    r = s["r"]
    for kk in ("o", "a", "b"):
        o = r.get(kk)
        if isinstance(o, dict) and o.get("k") in ("copy", "move"):
            places.append((o["p"], False))
    if r["k"] == "agg":
        places += [(o["p"], False) for o in r["ops"] if o["k"] in ("copy", "move")]
    if r["k"] in ("ref", "rawptr", "discr") and isinstance(r.get("p"), list):
        places.append((r["p"], False))
    for p, write in places:
        t = b.lty(p[0])
        for i, e in enumerate(p[1]):
            if e == "*" and F.types[t]["k"] == "ptr":
                judge_deref(F, R, b, bb, p, i, t, write, r, where)
            nt = b.place_ty((p[0], tuple(tuple(y) if not isinstance(y, str) else y for y in p[1][:i + 1])))
            if nt is None:
                break
            t = nt


def judge_deref(F, R, b, bb, p, i, t, write, r, where):
    x = X.of(F, b)
    pt = F.types[t]["t"]
    if i == 0:
        e, st = strip_casts(F, b, {"k": "copy", "p": [p[0], []]})
    else:
        e, st = x.place([p[0], p[1][:i]]), pt
    key = "%s|%s" % (b.nice, F.tys(pt))
    k = F.types[pt]
    enumlike = k["k"] == "char" or enum_of(F, pt) is not None
    is_read = not write and i == len(p[1]) - 1 and r["k"] not in ("ref", "rawptr")
    root = e
    while root[0] == "f":
        root = root[1]
    lb, le = lift(F, b, e)
    origin = lb.argc and le[0] == "p" and F.types[lb.lty(le[1])]["k"] == "ptr"
    boxed = "Unique" in F.tys(t) or "NonNull" in F.tys(t)
    if st is not None and F.tys(st) != F.tys(pt):
        R.bad("raw-deref", key, "%s dereferences a pointer to %s as %s" % (b.nice, F.tys(st), F.tys(pt)), where)
    elif is_read and enumlike and origin and k.get("d", "").find("::") >= 0 and "capi" in b.file:
        R.bad("enum-param", key, "%s reads a %s through a pointer from C" % (b.nice, F.tys(pt)), where)
    else:
        R.ok("raw-deref")


def unsafe_call(F, R, C, b, bb, x, t, where):
    f = t.get("res") or t.get("f")
    nice = F.nice(f)
    n = last(nice)
    key = "%s|%s" % (b.nice, n)
    a = t["a"]
    if f.startswith("core::fmt::"):
        return
    R.ok("vetted")
    if n in ("from_raw_parts", "from_raw_parts_mut") and "slice" in f:
        src, st = strip_casts(F, b, a[0])
        dt = pointee(F, b.op_ty(a[0]))
        ln = x.op(a[1])
        lb, le = lift(F, b, src)
        if le[0] == "p" and F.types[lb.lty(le[1])]["k"] == "ptr":
            lb2, ll = lift(F, b, ln)
            bad = None
            if F.tys(st) != F.tys(dt):
                bad = "the caller's buffer of %s is viewed as %s" % (F.tys(st), F.tys(dt))
            elif not from_export(F, lb, le[1]):
                bad = "the pointer is not one a C caller gave"
            elif n == "from_raw_parts_mut" and ln[0] == "c" and ln[1] <= 4:
                pass  # the C API's arrays have four entries
            elif (lb2 is not lb or not param_len(F, C, lb2, ll)) and not within_caller_len(F, C, b, bb, x, ln, lb):
                bad = "the length is %s, not the one the C caller gave" % inter.show(F, b, ln)
        else:
            bad = view_ok(F, C, b, bb, src, st, dt, ln)
        R.check(bad is None, "slice-view", key, "%s builds a raw slice: %s" % (b.nice, bad), where)
    elif n in ("copy_from_nonoverlapping", "copy_from", "copy_to", "copy_to_nonoverlapping", "copy_nonoverlapping", "copy") and len(a) == 3:
        swap = n.startswith("copy_from")
        d_, s_ = (a[0], a[1]) if swap else (a[1], a[0])
        cnt = unc(x.op(a[2]))
        src, st = strip_casts(F, b, s_)
        dst, dt = strip_casts(F, b, d_)
        BB = B(F, x, x.facts(bb))
        bad = None
        for e, o, what in ((src, s_, "source"), (dst, d_, "destination")):
            lb, le = lift(F, b, e)
            if le[0] == "p" and F.types[lb.lty(le[1])]["k"] == "ptr":
                continue  # the C caller's promise; that its length is the documented one is judged by the other side
            if array_len(F, b, e, o) is not None and cnt[0] == "c":
                if cnt[1] > array_len(F, b, e, o):
                    bad = "%d elements, the %s has %d" % (cnt[1], what, array_len(F, b, e, o))
                continue
            if not BB.le(cnt, x.length(e)):
                bad = "%s elements may be more than the %s has" % (inter.show(F, b, cnt), what)
        if bad is None and st is not None and dt is not None and F.tys(st) != F.tys(dt):
            bad = "from %s to %s" % (F.tys(st), F.tys(dt))
        R.check(bad is None, "raw-copy", key, "%s copies memory: %s" % (b.nice, bad), where)
    elif n in ("add", "offset", "sub", "byte_add", "get_unchecked", "get_unchecked_mut", "wrapping_add") and len(a) == 2:
        src, st = strip_casts(F, b, a[0])
        i = unc(x.op(a[1]))
        BB = B(F, x, x.facts(bb))
        lb, le = lift(F, b, src)
        ok = False
        if n in ("add", "get_unchecked", "get_unchecked_mut", "offset"):
            ok = BB.lt(i, x.length(src))
            if not ok and le[0] == "p" and from_export(F, lb, le[1]) and BB.ub(i) <= 3:
                ok = True  # the C API's arrays have four entries
            if not ok and le[0] == "p":
                for j in range(lb.argc):
                    c = ("p", j + 1)
                    if param_len(F, C, lb, c) and lb is b and BB.lt(i, c):
                        ok = True
            if not ok and le[0] == "p" and from_export(F, lb, le[1]):
                ok = any(BB.ub(c) <= 4 or within_caller_len(F, C, b, bb, x, c, lb) for c in below(BB, x, i))
        R.check(ok, "raw-copy", key, "%s offsets a pointer by %s" % (b.nice, inter.show(F, b, i)), where)
    elif n == "set_len" and len(a) == 2:
        v, l = x.op(a[0]), unc(x.op(a[1]))
        R.check(cap_ok(F, b, bb, x, a[0], v, l), "set-len", key, "%s sets the length of a vector to %s, which is not the capacity it was created with" % (b.nice, inter.show(F, b, l)), where)
    elif n == "from_raw" and "boxed" in f or n == "from_ptr" and "c_str" in f:
        s, st = strip_casts(F, b, a[0])
        dt = pointee(F, b.op_ty(a[0]))
        if n == "from_raw":
            R.check(F.tys(st) == F.tys(dt), "raw-deref", key, "%s takes a pointer to %s for one to %s" % (b.nice, F.tys(st), F.tys(dt)), where)
    elif n in ("read", "write", "replace", "as_ref", "as_mut", "read_unaligned", "write_unaligned", "read_volatile", "write_volatile", "as_ref_unchecked", "as_mut_unchecked") and f.startswith("core::ptr::"):
        s, st = strip_casts(F, b, a[0])
        dt = pointee(F, b.op_ty(a[0]))
        k = F.types[dt] if dt is not None else {"k": "?"}
        lb, le = lift(F, b, s)
        if st is not None and dt is not None and F.tys(st) != F.tys(dt):
            R.bad("raw-deref", key, "%s dereferences a pointer to %s as %s" % (b.nice, F.tys(st), F.tys(dt)), where)
        elif "write" not in n and (k["k"] == "char" or k.get("d", "").find("::") >= 0 and enum_of(F, dt) is not None) and le[0] == "p" and "capi" in b.file and not (n.startswith("as_mut") and only_written(F, b, dt)):
            R.bad("enum-param", key, "%s reads a %s through a pointer from C" % (b.nice, F.tys(dt)), where)
        else:
            R.ok("raw-deref")
    elif f in F.bodies and F.fns.get(f, {}).get("unsafe"):
        pass  # its body is judged like any other, its parameters by what the callers give
    elif n == "unreachable_unchecked" and any(k.startswith(b.id + "::") and "__multiversion" in k for k in F.bodies):
        pass
    else:
        R.bad("vetted", key, "%s calls %s, which no rule judges" % (b.nice, nice), where)


def only_written(F, b, t):
    """In b and its closures what a &mut t refers to is assigned to and never read or lent."""
    def isref(ty):
        k = F.types[ty] if ty is not None else {"k": "?"}
        return k["k"] == "ref" and k["mut"] and k["t"] == t

    def through(c, p):
        return any(e == "*" and isref(c.place_ty((p[0], p[1][:i]))) for i, e in enumerate(p[1]))

    for k, c in F.bodies.items():
        if k != b.id and not k.startswith(b.id + "::{"):
            continue
        for bb, _, s in c.stmts():
            if s["k"] != "=":
                continue
            r = s["r"]
            if r["k"] in ("ref", "rawptr", "discr") and through(c, pl(r["p"])):
                whole = r["k"] == "ref" and pl(r["p"])[1][-1:] == ("*",) and isref(c.place_ty(pl(s["p"])))
                if not whole:  # a reborrow is the same reference again
                    return False
            for o in ([r["o"]] if "o" in r else []) + [r[x] for x in "ab" if isinstance(r.get(x), dict)] + list(r.get("ops") or []):
                if o["k"] in ("copy", "move") and through(c, pl(o["p"])):
                    return False
        for bb, tm in c.calls():
            for o in tm["a"]:
                if o["k"] in ("copy", "move") and (through(c, pl(o["p"])) or isref(c.op_ty(o))):
                    return False
    return True


def array_len(F, b, e, o):
    """Length of the array a pointer operand points at the start of, when the type says it."""
    l = o["p"][0] if o["k"] in ("copy", "move") and not o["p"][1] else None
    d = b.defs.get(l, []) if l is not None else []
    if len(d) == 1:
        rv = d[0][2]
        if rv["k"] == "call" and last(F.nice(rv.get("res") or rv.get("f") or "?")) in ("as_ptr", "as_mut_ptr"):
            return op_array_len(F, b, rv["a"][0])
        if rv["k"] == "cast":
            return array_len(F, b, e, rv["o"])
    return None


def cap_ok(F, b, bb, x, o, v, l):
    """The vector was made by with_capacity(l)."""
    if l == ("c", 0):
        return True
    root = v
    if root[0] == "l":
        e = x.init(root[1])
        if e is None:
            return False
        if e[0] in ("call@",) and last(F.nice(e[2])) == "with_capacity":
            return unc(e[3]) == l
        if e[0] == "call" and e[1] == "with_capacity":
            return unc(e[2]) == l
    return False


def enum_map(F, R, b):
    """From<int> for a fieldless enum: no number leads to the variant of another."""
    if b.argc != 1:
        return
    t = F.types[b.lty(1)]
    if t["k"] != "int":
        return
    out = b.lty(0)
    a = enum_of(F, out)
    if a is not None and F.types[out]["d"].split("::")[-1] in ("Option", "Result"):
        a = None
    if a is None:
        ty = F.types[out]
        if ty["k"] == "adt" and ty.get("a"):
            a = enum_of(F, ty["a"][0])
    if a is None or any(v["f"] for v in a["v"]):
        return
    x = X.of(F, b)
    e = x.local(1)
    Rg = Ranges(F, b, e, start=type_range(F, b.lty(1)))
    path = [p for p, y in F.adts.items() if y is a][0]
    nums = {int(v["discr"]): v["n"] for v in a["v"]}
    # the enumeration is numbered like what it is made from only if most values agree
    maps = []
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == path:
                vi = s["r"]["v"]
                iv = Rg.get(bb)
                if len(iv) == 1 and iv[0][0] == iv[0][1]:
                    maps.append((iv[0][0], int(a["v"][vi]["discr"]), a["v"][vi]["n"], s.get("l", b.line)))
    agree = sum(1 for m in maps if m[0] == m[1])
    if not maps or agree * 2 < len(maps):
        return
    for num, d, vn, line in maps:
        R.check(num == d or num not in nums, "enum-map", "%s|%d" % (b.nice, num), "%s turns %d into %s, which is %d (%s is %d)" % (b.nice, num, vn, d, nums.get(num), num), "%s:%d" % (b.file, line))
