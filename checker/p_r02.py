"""R02: fixed positions are read only in data known to be long enough."""
import re
import cg
from expr import X, last
from bounds import B
import inter
from ranges import Ranges

READ = {"read_u8": 1, "read_i8": 1, "read_u16": 2, "read_i16": 2, "read_u24": 3, "read_i24": 3, "read_u32": 4, "read_i32": 4, "read_f32": 4, "read_u48": 6, "read_u64": 8, "read_i64": 8, "read_f64": 8, "read_u128": 16}


def const(e):
    return e[0] == "c" and isinstance(e[1], int) and not isinstance(e[1], bool)


# what makes these long enough lies outside what the rule follows
ACCEPT = {
    "position|decompress::sliced_buffer::SlicedBuffer::<T>::new|position 0 of len(unwrap_or_else(map(slices, fn), closure{..}))": "the list of slices is one width when there is none, and Cr2File refuses one of fewer than three",
    "need|tiff::entry::Entry::load_data|read_u32(4) of len(self.3)": "Entry::new takes four bytes, and External was ruled out above it",
}

# the vectors these return are as long as the entry's count (tiff::Entry)
COUNTED = re.compile(r"^tiff::entry::Entry::(uint|int|float)_value_array$")


def counted(F, e):
    """The length of the values of an entry is the entry's count."""
    if e[0] == "len" and e[1][0] in ("some", "down"):
        c = e[1][1]
        a = c[3:] if c[0] == "call@" else c[2:]
        f = c[2] if c[0] == "call@" else c[1]
        if c[0] in ("call@", "pure") and a and COUNTED.match(F.nice(f)):
            me = F.types[F.fns[f]["in"][0]]
            fields = [n["n"] for n in F.adts[F.types[me["t"]]["d"]]["v"][0]["f"]]
            return ("f", a[0], fields.index("count")) if "count" in fields else e
    return e


def plain(F, ty):
    """Numbers and text: what the elements of file data are."""
    t = F.types[ty]
    if t["k"] in ("int", "float", "bool", "char"):
        return True
    if t["k"] == "adt":
        return t["d"].split("::")[-1] in ("Rational", "SRational", "String") or t["d"].startswith("core::num")
    return t["k"] in ("param", "other")


def element(F, b, bb):
    """The type of the elements of the sequence indexed at the end of block bb, when it can be told."""
    t = b.blocks[bb]["t"]
    if t["k"] == "call":
        ty = F.types[b.lty(t["d"][0])] if not t["d"][1] else {}
        return ty.get("t") if ty.get("k") in ("ref", "ptr") else None
    o = t["ops"][0]
    if o.get("k") in ("copy", "move") and not o["p"][1]:
        d = b.single_def(o["p"][0])
        r = d[2] if d else None
        if r and r.get("k") == "un" and r["op"] == "PtrMetadata" and r["o"]["k"] in ("copy", "move"):
            ty = F.types[b.op_ty(r["o"])]
            ty = F.types[ty["t"]] if ty.get("k") in ("ref", "ptr") else {}
            return ty.get("t") if ty.get("k") == "slice" else None
    return None


def own_table(F, b, ob):
    """A list of the library's own structures, or a row of a table it builds: not what a file holds."""
    if ob[0] != "index":
        return False
    ty = element(F, b, ob[1])
    if ty is not None and not plain(F, ty):
        return True
    return ob[3][0] == "len" and ob[3][1][0] == "idx"


def obligations(F, b):
    """(kind, block to judge at, needed length expressions, sequence, line, text)"""
    x = X.of(F, b)
    out = []
    for bb in sorted(b.reach):
        blk = b.blocks[bb]
        t = blk["t"]
        if t["k"] == "assert" and t["m"] == "bounds":
            ln, ix = x.op(t["ops"][0]), x.op(t["ops"][1])
            out.append(("index", bb, ix, ln, t["l"], "position"))
        elif t["k"] == "call" and t.get("f"):
            f = t.get("res") or t["f"]
            n = last(F.nice(f))
            if f in F.bodies:
                continue
            if n in ("index", "index_mut") and len(t["a"]) == 2 and "range" in rng(F, b, t["a"][1]).lower():
                r = x.op(t["a"][1])
                s = x.length(x.op(t["a"][0]))
                if r[0] == "agg":
                    out.append(("range", bb, r, s, t["l"], "range"))
                else:
                    out.append(("range", bb, None, s, t["l"], "range"))
            elif n in ("index", "index_mut") and len(t["a"]) == 2 and F.types[b.op_ty(t["a"][1])]["k"] == "int":
                out.append(("index", bb, x.op(t["a"][1]), x.length(x.op(t["a"][0])), t["l"], "position"))
            elif n in READ and len(t["a"]) == 1 and "ByteOrder" in (t.get("f") or ""):
                out.append(("need", bb, ("c", READ[n]), x.length(x.op(t["a"][0])), t["l"], n))
            elif n in ("split_at", "split_at_mut") and len(t["a"]) == 2:
                out.append(("need", bb, x.op(t["a"][1]), x.length(x.op(t["a"][0])), t["l"], n))
            elif n in ("from_row_slice", "from_column_slice") and len(t["a"]) == 1 and matrix_size(F, b, t):
                # nalgebra matrices of a fixed size
                out.append(("whole", bb, ("c", matrix_size(F, b, t)), x.length(x.op(t["a"][0])), t["l"], n))
            elif n in ("copy_from_slice", "clone_from_slice") and len(t["a"]) == 2:
                out.append(("same", bb, x.length(x.op(t["a"][0])), x.length(x.op(t["a"][1])), t["l"], n))
            elif n in ("remove", "swap_remove", "split_off", "drain", "swap") and re.search(r"vec|slice", f):
                out.append(("other", bb, None, None, t["l"], n))
    return out


def matrix_size(F, b, t):
    n = [int(i) for i in re.findall(r"Const<(\d+)>", F.tys(b.lty(t["d"][0])))][:2]
    return n[0] * n[1] if len(n) == 2 else 0


def rng(F, b, o):
    ty = b.op_ty(o)
    return F.tys(ty) if ty is not None else ""


def running(ln):
    """The length of what is left from a position that moves."""
    if ln[0] == "bin" and ln[1] == "Sub":
        return running(ln[2]) or not const(ln[3])
    return False


def fixed(ob):
    kind, bb, a, ln, line, txt = ob
    if running(ln):
        return False
    if kind == "index":
        return const(a)
    if kind == "range":
        return a is not None and all(const(e) for e in a[3])
    if kind in ("need", "whole"):
        return const(a)
    return False


def judge(F, C, b, ob):
    kind, bb, a, ln, line, txt = ob
    prove = inter.prove_multi

    def prove_multi(F, C, b, bb, es, goal):
        # a caller that hands over what is left from a moving position is outside the rule, like such a place itself
        return prove(F, C, b, bb, es, lambda Q, e: running(e[-1]) or goal(Q, e) or goal(Q, e[:-1] + (counted(F, e[-1]),)))
    if kind == "index":
        return prove_multi(F, C, b, bb, (a, ln), lambda Q, e: Q.lt(e[0], e[1]))
    if kind == "need":
        return prove_multi(F, C, b, bb, (a, ln), lambda Q, e: Q.le(e[0], e[1]))
    if kind in ("same", "whole"):
        return prove_multi(F, C, b, bb, (a, ln), lambda Q, e: Q.le(e[0], e[1]) and Q.le(e[1], e[0]))
    if kind == "range" and a is not None:
        nm, es = a[1].split("::")[-1], a[3]
        if nm == "RangeFull":
            return True
        if nm == "Range":
            return prove_multi(F, C, b, bb, (es[0], es[1], ln), lambda Q, e: Q.le(e[0], e[1]) and Q.le(e[1], e[2]))
        if nm in ("RangeTo", "RangeFrom"):
            return prove_multi(F, C, b, bb, (es[0], ln), lambda Q, e: Q.le(e[0], e[1]))
        if nm == "RangeInclusive":
            return prove_multi(F, C, b, bb, (es[0], es[1], ln), lambda Q, e: Q.le(e[0], ("bin", "Add", e[1], ("c", 1))) and Q.lt(e[1], e[2]))
        if nm == "RangeToInclusive":
            return prove_multi(F, C, b, bb, (es[0], ln), lambda Q, e: Q.lt(e[0], e[1]))
    return False


def lookups(F):
    """Methods that are given one number and can report that there is nothing there: [(body, expression of the number)]."""
    for k, f in sorted(F.fns.items()):
        b = F.bodies.get(k)
        if b is None or len(f.get("in") or ()) != 2 or not f.get("self"):
            continue
        a, i = (F.types[t] for t in f["in"])
        if a["k"] == "ref" and i["k"] == "int" and X.of(F, b).opt_kind(f["out"]):
            yield b, ("p", 2)


def mentions(v, a):
    return v == a or isinstance(v, tuple) and any(mentions(y, a) for y in v if isinstance(y, tuple))


def captures(F, b, e, c):
    """Expressions that stand for the value e of b in its closure c."""
    x = X.of(F, b)
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == c.id:
                for i, o in enumerate(s["r"]["ops"]):
                    if x.op(o) == e:
                        yield ("f", ("p", 1), i)


def in_range(F, b, bb, a, ln):
    """Following the branches on the number itself: every value that gets here is a position."""
    while a[0] == "cast":
        a = a[2]
    e, d = (a[2], a[3][1] if a[1] == "Add" else -a[3][1]) if a[0] == "bin" and a[1] in ("Add", "Sub") and const(a[3]) else (a, 0)
    if e[0] != "p" or not const(ln):
        return False
    iv = Ranges(F, b, e, ((0, 1 << 64),)).get(bb)
    return all(lo + d >= 0 and hi + d < ln[1] for lo, hi in iv)


def lookup(F, R, C):
    for b, e in lookups(F):
        bad = None
        for k, c in F.bodies.items():
            if k != b.id and not k.startswith(b.id + "::{"):
                continue
            es = [e] if c is b else list(captures(F, b, e, c))
            for ob in obligations(F, c):
                if ob[0] not in ("index", "range", "need") or ob[2] is None or running(ob[3]) or fixed(ob) or not any(mentions(ob[2], y) for y in es):
                    continue
                if judge(F, C, c, ob) or ob[0] == "index" and in_range(F, c, ob[1], ob[2], ob[3]):
                    continue
                bad = bad or (c, ob)
        R.check(bad is None, "lookup", inter.stable_name(b), bad and "%s takes %s, which may be too short, instead of reporting that it isn't there" % (b.nice, show(F, bad[0], bad[1])),
                bad and "%s:%s" % (b.file, bad[1][4]))


def run(F, R, every=False):
    R.rule("lookup", "a method that is given a position and can report that nothing is there does so for every position outside the data")
    R.rule("position", "a fixed position is read only where the data is known to be longer")
    R.rule("range", "a fixed range is taken only where the data is known to be at least that long")
    R.rule("need", "a number is decoded only from data known to hold all its bytes")
    R.rule("whole", "a matrix is made only from data known to have exactly as many values")
    C = cg.get(F)
    accepted = 0
    live = C.reach(cg.roots(F, C))
    for k in sorted(live):
        b = F.bodies[k]
        if b.kind not in ("fn", "closure"):
            continue
        for ob in obligations(F, b):
            if not fixed(ob) and not every or own_table(F, b, ob):
                continue
            ok = judge(F, C, b, ob)
            kind = {"index": "position"}.get(ob[0], ob[0])
            if kind not in ("position", "range", "need", "whole"):
                continue
            what = show(F, b, ob)
            if not ok and "%s|%s|%s" % (kind, inter.stable_name(b), what) in ACCEPT:
                R.ok(kind)
                accepted += 1
                continue
            R.check(ok, kind, "%s|%s" % (inter.stable_name(b), what), "%s takes %s, which may be too short" % (b.nice, what), "%s:%s" % (b.file, ob[4]))
    lookup(F, R, C)
    R.floor("lookup", 12)
    R.floor("position", 100)
    R.floor("range", 20)
    R.note("%d places accepted with the reasons in ACCEPT" % accepted)


def show(F, b, ob):
    kind, bb, a, ln, line, txt = ob
    s = lambda e: inter.show(F, b, e)
    seq = s(ln)
    if kind == "range":
        return "range %s of %s" % ("..".join(s(e) for e in a[3]) if a else "?", seq)
    if kind == "index":
        return "position %s of %s" % (s(a), seq)
    if kind in ("need", "whole"):
        return "%s(%s) of %s" % (txt, s(a), seq)
    return "%s %s from %s" % (txt, s(a), seq)
