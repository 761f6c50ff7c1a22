"""T03: tag value types are decoded with their TIFF size and kind."""
import spec
from spec import Spec, TOP
from expr import X, last
import inter

# TIFF 6.0 / Exif 2.3: number, bytes per element
TIFF = {"Byte": (1, 1), "Ascii": (2, 1), "Short": (3, 2), "Long": (4, 4), "Rational": (5, 8), "SByte": (6, 1), "Undefined": (7, 1), "SShort": (8, 2), "SLong": (9, 4), "SRational": (10, 8),
        "Float": (11, 4), "Double": (12, 8)}
RUST = {"u8": "Byte", "std::string::String": "Ascii", "u16": "Short", "u32": "Long", "tiff::exif::Rational": "Rational", "i8": "SByte", "std::vec::Vec<u8>": "Undefined", "i16": "SShort",
        "i32": "SLong", "tiff::exif::SRational": "SRational", "f32": "Float", "f64": "Double"}
DECODE = {"u8": set(), "i8": set(), "u16": {"read_u16"}, "i16": {"read_i16"}, "u32": {"read_u32"}, "i32": {"read_i32"}, "f32": {"read_f32"}, "f64": {"read_f64"},
          "tiff::exif::Rational": {"read_u32"}, "tiff::exif::SRational": {"read_i32"}}
KIND = {"Byte": "Bytes", "Undefined": "Bytes", "Ascii": "String", "Short": "Int", "Long": "Int", "SShort": "SInt", "SLong": "SInt", "SByte": "SBytes", "Rational": "Rational",
        "SRational": "SRational", "Float": "Float", "Double": "Double"}
ENTRY = "libopenraw::tiff::entry::Entry"
TAGTYPE = "libopenraw::tiff::exif::TagType"
TRAIT = "libopenraw::tiff::exif::ExifValue"


def run(F, R):
    R.rule("tag-number", "the number of every TIFF value type is the one the TIFF specification gives it")
    R.rule("unit-size", "the size of an element of every TIFF value type is the specified one")
    R.rule("value-type", "every Rust type values are read as declares the TIFF type it stands for, that type's element size, and reads exactly that many bytes the right way")
    R.rule("accessor", "whatever accessor is used, an entry of a type is read only as that type (or as raw bytes when it is UNDEFINED)")
    R.rule("stride", "the element of an entry asked for by its index, or the next one of an array, is read at its index times the size of an element")
    R.rule("accepts", "accessors that give the same kind of value accept the same types, and one that reads a given type accepts that type")
    R.rule("kind", "the metadata iterator reports each type as its kind of value")
    R.rule("inline", "a value is inline exactly when its elements take four bytes or less, and otherwise exactly its size is loaded")
    tt = F.adts.get(TAGTYPE)
    en = F.adts.get(ENTRY)
    if not tt or not en:
        R.fail("unit-size", "anchor", "tiff::exif::TagType or tiff::entry::Entry not found", "src/tiff/exif.rs")
        return
    var = {v["n"]: i for i, v in enumerate(tt["v"])}
    fidx = {f["n"]: i for i, f in enumerate(en["v"][0]["f"])}
    if "type_" not in fidx or "count" not in fidx:
        R.fail("accessor", "anchor", "tiff::Entry has no type_/count field", "src/tiff/entry.rs")
        return
    for n, (num, size) in TIFF.items():
        if n not in var:
            R.fail("tag-number", n, "no TIFF type %s" % n, "src/tiff/exif.rs")
            continue
        d = int(tt["v"][var[n]].get("discr") or 0)
        R.check(d == num, "tag-number", n, "%s has number %d, TIFF says %d" % (n, d, num), "src/tiff/exif.rs")
    num2var = {int(v.get("discr") or 0): v["n"] for v in tt["v"]}

    def tag(n):
        return ("adt", TAGTYPE, var[n], ())

    # ---- sizes: functions from a tag type to a size
    for bid, b in F.bodies.items():
        if b.kind == "fn" and b.argc == 1 and F.types[b.lty(1)].get("d") == TAGTYPE and F.tys(b.lty(0)) == "usize":
            for n, (num, size) in TIFF.items():
                v = Spec(F).run(bid, (tag(n),))[0]
                R.check(v == size, "unit-size", "%s|%s" % (b.nice, n), "%s gives %s for %s, TIFF says %d" % (b.nice, v, n, size), "%s:%s" % (b.file, b.line))
    # number to type
    for im in F.impls:
        if im["trait"] == "core::convert::TryFrom" and F.types[im["self"]].get("d") == TAGTYPE:
            for n, item, ti in im["items"]:
                if item in F.bodies:
                    for k, (num, size) in TIFF.items():
                        v = Spec(F).run(item, (num,))[0]
                        good = isinstance(v, tuple) and v[0] == "adt" and v[2] == 0 and (v[3][0] == tag(k) or v[3][0] == num)
                        R.check(good, "tag-number", "try_from|%s" % k, "the number of %s is not turned into %s" % (k, k), "%s:%s" % (F.bodies[item].file, F.bodies[item].line))

    # ---- the ExifValue implementations
    impls = {}
    for im in F.impls:
        if im["trait"] == TRAIT:
            impls[F.tys(im["self"])] = im
    for ty, want in RUST.items():
        R.check(ty in impls, "value-type", ty + "|impl", "no ExifValue for %s" % ty, "src/tiff/exif.rs")
    for ty, im in impls.items():
        want = RUST.get(ty)
        items = {n: item for n, item, ti in im["items"]}
        loc = "src/tiff/exif.rs"
        if want is None:
            R.fail("value-type", ty + "|unknown", "%s has no TIFF type assigned by this check" % ty, loc)
            continue
        b = F.bodies.get(items.get("exif_type"))
        v = Spec(F).run(b.id, ())[0] if b else TOP
        R.check(v == tag(want), "value-type", ty + "|exif_type", "%s is declared as %s, not %s" % (ty, num2var.get(Spec(F).discr(v), "?"), want), loc)
        us = unit_size(F, im, items)
        R.check(us == TIFF[want][1], "value-type", ty + "|unit_size", "elements of %s are taken to be %s bytes long, not %d" % (ty, us, TIFF[want][1]), loc)
        rb = F.bodies.get(items.get("read"))
        if rb is None:
            R.fail("value-type", ty + "|read", "no read function for %s" % ty, loc)
            continue
        if ty in DECODE:
            check_read(F, R, ty, rb, DECODE[ty])

    # ---- accessors
    tyid = {F.tys(im["self"]): im["self"] for im in F.impls if im["trait"] == TRAIT}

    def hook(S, b, bb, t, g, args, te, tenv):
        if t.get("trait") == TRAIT and last(t["f"]) in ("read", "unit_size"):
            st = S.tyres(t["ta"][0], tenv)
            return [(last(t["f"]), F.tys(st) if st is not None else "?", b.nice, t["l"])]
        return None

    def entry(n, count=None, num=None):
        f = [(fidx["type_"], TIFF[n][0] if num is None else num)]
        if count is not None:
            f.append((fidx["count"], count))
        return ("obj", ENTRY, tuple(sorted(f)))

    value_adt = "libopenraw::metadata::Value"
    kinds = 0
    acc = {}
    for bid, b in sorted(F.bodies.items()):
        if b.kind != "fn":
            continue
        ep = [l for l in range(1, b.argc + 1) if peel(F, b.lty(l)).get("d") == ENTRY]
        if not ep or F.fns.get(bid, {}).get("trait_item"):
            continue
        g = b.j.get("g", [])
        tp = [p for p in g if p in generic_value_params(F, b, bid)]
        if "untyped" in last(bid):
            continue
        nm = b.nice
        for ty in (sorted(tyid) if tp else [None]):
            tenv = tuple(sorted((p, tyid[ty]) for p in tp)) if ty else ()
            accepted = set()
            for n in TIFF:
                args = []
                for l in range(1, b.argc + 1):
                    if l in ep:
                        args.append(entry(n))
                    elif F.types[b.lty(l)]["k"] == "bool":
                        args.append(0)
                    else:
                        args.append(TOP)
                r, back, ev = Spec(F, hook).run(bid, args, tenv)
                reads = {e[1] for e in ev if e[0] == "read"}
                sizes = {e[1] for e in ev if e[0] == "unit_size"}
                if reads:
                    accepted.add(n)
                bad = sorted(x for x in reads | sizes if RUST.get(x) != n and not (n == "Undefined") and not (x in sizes - reads and ty is not None))
                where = next((e for e in sorted(ev) if e[1] in bad), None)
                R.check(not bad, "accessor", "%s|%s|%s" % (nm, ty or "", n), "%s reads an entry of type %s as %s" % (nm, n, ", ".join(bad)),
                        "%s:%s" % (b.file, where[3] if where else b.line))
                if reads and sizes:
                    R.check(reads <= sizes or not sizes - reads, "accessor", "%s|%s|%s|stride" % (nm, ty or "", n), "%s steps by the size of %s but reads %s" % (nm, sorted(sizes), sorted(reads)), "%s:%s" % (b.file, b.line))
                if F.types[b.lty(0)].get("d") == value_adt:
                    kinds += 1
                    got = F.adts[value_adt]["v"][r[2]]["n"] if isinstance(r, tuple) and r[0] == "adt" else "?"
                    R.check(got == KIND[n], "kind", "%s|%s" % (nm, n), "%s reports %s as %s" % (nm, n, got), "%s:%s" % (b.file, b.line))
            if ty is None:
                acc[bid] = accepted
            elif accepted:
                R.check(RUST[ty] in accepted, "accepts", "%s|%s" % (nm, ty), "%s::<%s> does not read an entry of type %s" % (nm, ty, RUST[ty]), "%s:%s" % (b.file, b.line))
    # ---- where the elements are read
    def shook(S, b, bb, t, g, args, te, tenv):
        if b.id in readers:
            return None
        if t.get("trait") == TRAIT and last(t["f"]) == "read":
            st = S.tyres(t["ta"][0], tenv)
            return [("read", F.tys(st) if st is not None else "?", b.nice, t["l"])]
        if last(g) in ("get", "index", "get_unchecked") and "slice" in g + F.tys(b.op_ty(t["a"][0])) and len(args) > 1 and t["a"] and "[u8]" in F.tys(b.op_ty(t["a"][0])):
            r = args[1]
            if isinstance(r, tuple) and r[0] == "adt" and r[3] and ("RangeFrom" in r[1] or r[1].endswith("::Range")) and isinstance(r[3][0], int):
                return [("at", r[3][0], b.nice, t["l"])]
        return None
    readers = {item for im in impls.values() for n, item, ti in im["items"]}
    ats = 0
    for bid, b in sorted(F.bodies.items()):
        if b.kind != "fn" or F.fns.get(bid, {}).get("trait_item"):
            continue
        ep = [l for l in range(1, b.argc + 1) if peel(F, b.lty(l)).get("d") == ENTRY]
        ip = [l for l in range(1, b.argc + 1) if F.tys(b.lty(l)) in ("u32", "usize")]
        if not ep or len(ip) != 1 or "untyped" in last(bid):
            continue
        tp = generic_value_params(F, b, bid)
        for ty in (sorted(tyid) if tp else [None]):
            tenv = tuple(sorted((p, tyid[ty]) for p in tp)) if ty else ()
            for n in TIFF:
                for k in (0, 3):
                    args = [entry(n, 9) if l in ep else k if l in ip else 0 if F.types[b.lty(l)]["k"] == "bool" else TOP for l in range(1, b.argc + 1)]
                    r, back, ev = Spec(F, shook).run(bid, args, tenv)
                    rd = {RUST.get(e[1]) for e in ev if e[0] == "read"}
                    at = sorted((e for e in ev if e[0] == "at"), key=str)
                    if len(rd) != 1 or not at or None in rd:
                        continue
                    size = TIFF[rd.pop()][1]
                    ats += 1
                    bad = [e for e in at if e[1] != k * size]
                    R.check(not bad, "stride", "%s|%s|%s|%d" % (b.nice, ty or "", n, k), "%s reads element %d of an entry of type %s at byte %s instead of %d" % (b.nice, k, n, bad and bad[0][1], k * size),
                            "%s:%s" % (b.file, bad[0][3] if bad else b.line))
    for bid, b in sorted(F.bodies.items()):
        if b.kind not in ("fn", "closure") or bid in readers:
            continue
        x = None
        for bb, t in b.calls():
            if t.get("trait") != TRAIT or last(t["f"]) != "read":
                continue
            x = x or X.of(F, b)
            ty = F.tys(t["ta"][0])
            if RUST.get(ty) in TIFF and TIFF[RUST[ty]][1] == 1:
                continue
            e = x.op(t["a"][0])
            if not (e[0] == "call" and e[1] == "index" and e[3][0] == "agg" and e[3][3]):
                continue
            ats += 1
            R.check(not counter(F, b, e[3][3][0]), "stride", "%s|%s|%s" % (b.nice, ty, "loop"), "%s reads consecutive elements of type %s one byte apart" % (b.nice, ty), "%s:%s" % (b.file, t["l"]))
    R.check(ats > 8, "stride", "floor", "no accessor reading elements by their index was found", "src/tiff/entry.rs")
    R.check(kinds >= len(TIFF), "kind", "floor", "no function turning an entry into a metadata value was found", "src/tiff/iterator.rs")
    groups = {}
    for bid, a in acc.items():
        b = F.bodies[bid]
        et = elem(F, b.lty(0))
        if et and a and F.fns.get(bid, {}).get("self") and peel(F, F.fns[bid]["self"]).get("d") == ENTRY:
            groups.setdefault(et, []).append((b, a))
    for et, l in sorted(groups.items()):
        big = set().union(*[a for b, a in l])
        for b, a in l:
            R.check(a == big, "accepts", "%s|%s" % (b.nice, et), "%s does not accept %s, which another accessor of %s does" % (b.nice, ", ".join(sorted(big - a)), et), "%s:%s" % (b.file, b.line))
    for bid, a in acc.items():
        if len(a) >= 8:
            b = F.bodies[bid]
            if F.types[b.lty(0)].get("d") != value_adt:
                R.check(len(a) == len(TIFF), "accepts", "%s|all" % b.nice, "%s does not read %s" % (b.nice, ", ".join(sorted(set(TIFF) - a))), "%s:%s" % (b.file, b.line))

    # ---- inline values and loading
    counts = [0, 1, 2, 3, 4, 5, 8, 9, 1000, (1 << 32) - 1]
    inl = [b for bid, b in F.bodies.items() if b.kind == "fn" and b.argc == 1 and peel(F, b.lty(1)).get("d") == ENTRY and F.types[b.lty(0)]["k"] == "bool" and "inline" in last(bid)]
    R.check(bool(inl), "inline", "anchor", "no function deciding whether a value is inline was found", "src/tiff/entry.rs")
    for b in inl:
        for n, (num, size) in TIFF.items():
            for c in counts:
                v = Spec(F).run(b.id, (entry(n, c),))[0]
                R.check(v == int(size * c <= 4), "inline", "%s|%s|%d" % (b.nice, n, c), "%s says %s for %d elements of type %s" % (b.nice, {0: "no", 1: "yes"}.get(v, "?"), c, n), "%s:%s" % (b.file, b.line))

    def ahook(S, b, bb, t, g, args, te, tenv):
        nme = last(F.nice(g))
        pos = {"set_len": 1, "with_capacity": 0, "from_elem": 1, "resize": 1, "reserve": 1, "reserve_exact": 1, "try_reserve": 1, "try_reserve_exact": 1, "take": 1}.get(nme)
        if pos is not None and g not in F.bodies and pos < len(args):
            return [(nme, args[pos] if isinstance(args[pos], int) else "?", t["l"])]
        return None
    loads = 0
    for bid, b in sorted(F.bodies.items()):
        if b.kind != "fn" or not any(peel(F, b.lty(l)).get("d") == ENTRY for l in range(1, b.argc + 1)) or not any(peel(F, b.lty(l)).get("d") == "libopenraw::io::View" for l in range(1, b.argc + 1)):
            continue
        for n, (num, size) in TIFF.items():
            for c in (1, 3, 70000):
                args = [entry(n, c) if peel(F, b.lty(l)).get("d") == ENTRY else TOP for l in range(1, b.argc + 1)]
                r, back, ev = Spec(F, ahook).run(bid, args)
                ev = {e for e in ev if e[1] != "?"} or ev
                if ev:
                    loads += 1
                    bad = sorted(str(e) for e in ev if e[1] != size * c)
                    R.check(not bad, "inline", "%s|%s|%d|load" % (b.nice, n, c), "%s loads another number of bytes than %d for %d elements of type %s: %s" % (b.nice, size * c, c, n, bad), "%s:%s" % (b.file, b.line))
    R.check(loads > 0, "inline", "load-anchor", "no function loading the data of an entry was found", "src/tiff/entry.rs")
    R.floor("unit-size", 12)
    R.floor("accessor", 200)
    R.assume("byteorder's read_* functions decode the type they are named after; core::mem::size_of is the ABI's")


def counter(F, b, e):
    """The expression is, itself, what a plain range of integers counts through."""
    if e[0] == "cast":
        return counter(F, b, e[2])
    if e[0] == "some" and e[1][0] == "call@" and last(e[1][2]) == "next" and len(e[1]) > 3 and e[1][3][0] == "l":
        return plain_range(F, b.lty(e[1][3][1]))
    if e == ("p", 2) and b.kind == "closure":
        pk = b.id.rsplit("::{closure#", 1)[0]
        pb = F.bodies.get(pk)
        if pb is None:
            return False
        for bb, t in pb.calls():
            if len(t["a"]) > 1 and t["a"][0]["k"] != "const" and last(t.get("f") or "") in ("map", "for_each", "filter_map", "flat_map", "try_for_each"):
                c = F.types[pb.op_ty(t["a"][1])]
                if c["k"] == "closure" and c["d"] == b.id:
                    return plain_range(F, pb.op_ty(t["a"][0]))
    return False


def plain_range(F, t):
    x = peel(F, t)
    return x["k"] == "adt" and x["d"].endswith("ops::range::Range")


def peel(F, t):
    x = F.types[t]
    while x["k"] in ("ref", "ptr"):
        x = F.types[x["t"]]
    return x


def elem(F, t):
    """X of Option<X> or Option<Vec<X>>."""
    x = F.types[t]
    if x["k"] == "adt" and x["d"].endswith("Option") and x["a"]:
        y = F.types[x["a"][0]]
        if y["k"] == "adt" and y["d"].endswith("vec::Vec"):
            return F.tys(y["a"][0])
        return F.tys(x["a"][0])
    return None


def generic_value_params(F, b, bid):
    """Type parameters used as ExifValue in the body or passed on to a generic accessor (a parameter of the byte order is not)."""
    out = set()
    for bb, t in b.calls():
        if t.get("trait") == TRAIT and t.get("ta"):
            x = F.types[t["ta"][0]]
            if x["k"] == "param":
                out.add(x["s"])
        g = t.get("res") or t.get("f")
        if g in F.bodies and g != bid:
            sub = generic_value_params(F, F.bodies[g], g)
            for n, ty in zip(F.bodies[g].j.get("g", []), t.get("ra") or []):
                if n in sub and F.types[ty]["k"] == "param":
                    out.add(F.types[ty]["s"])
    return out


def unit_size(F, im, items):
    f = items.get("unit_size")
    if f:
        return Spec(F).run(f, ())[0]
    return Spec(F).run(TRAIT + "::unit_size", (), (("Self", im["self"]),))[0]


def check_read(F, R, ty, b, want):
    """The decoder applied, and where in the slice it reads."""
    loc = "%s:%s" % (b.file, b.line)
    x = X.of(F, b)
    got = {}
    for bid in [b.id]:
        for bb, t in b.calls():
            n = last(t.get("f") or "?")
            if "byteorder" in (t.get("f") or "") and n.startswith("read_") or n == "read" and t.get("trait") == TRAIT:
                if n == "read":
                    n = "read_" + F.tys(t["ta"][0])
                off = offset(x, x.op(t["a"][0]))
                got.setdefault(n, set()).add(off)
            elif n.startswith("from_be") or n.startswith("from_le") or n.startswith("from_ne"):
                got.setdefault(n, set()).add(None)
    names = set(got)
    R.check(names == want, "value-type", ty + "|decoder", "%s is decoded with %s, not %s" % (ty, sorted(names) or "a byte", sorted(want) or "a byte"), loc)
    if ty.endswith("ational"):
        a = F.adts.get("libopenraw::" + ty)
        order = [f["n"] for f in a["v"][0]["f"]]
        e = None
        for bb, i, rv in b.defs.get(0, []):
            e = x.rv(rv, bb, 0)
        ok = e is not None and e[0] == "agg" and len(e[3]) == 2
        if ok:
            for f, w in (("num", 0), ("denom", 4)):
                v = e[3][order.index(f)]
                ok = ok and v[0] == "call@" and offset(x, v[3]) == w
        R.check(ok, "value-type", ty + "|layout", "%s is not read as a numerator at byte 0 and a denominator at byte 4" % ty, loc)
    elif want:
        offs = set().union(*got.values()) if got else {None}
        R.check(offs == {0}, "value-type", ty + "|layout", "%s is not read from the start of its bytes" % ty, loc)
    else:
        e = None
        for bb, i, rv in b.defs.get(0, []):
            e = x.rv(rv, bb, 0)
        while e is not None and e[0] == "cast":
            e = e[2]
        R.check(e == ("idx", ("p", 1), ("c", 0)), "value-type", ty + "|layout", "%s is not the first byte" % ty, loc)


def offset(x, e):
    """Constant offset of a sub-slice of the first parameter."""
    if e == ("p", 1):
        return 0
    if e[0] == "call" and e[1] == "index" and e[2] is not None:
        o = offset(x, e[2])
        r = e[3]
        if o is not None and r[0] == "agg" and r[3]:
            a = r[3][0]
            if r[1].endswith("RangeTo::RangeTo") or r[1].endswith("RangeFull::RangeFull"):
                return o
            if a[0] == "c":
                return o + a[1]
    return None
