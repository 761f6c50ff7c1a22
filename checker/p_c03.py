"""C03: the public headers describe the exported functions and values."""
import headers, capi

SCALARS = {
    "uint8_t": ("int", 8, False), "uint16_t": ("int", 16, False), "uint32_t": ("int", 32, False), "uint64_t": ("int", 64, False),
    "int8_t": ("int", 8, True), "int16_t": ("int", 16, True), "int32_t": ("int", 32, True), "int64_t": ("int", 64, True),
    "int": ("int", 32, True), "unsigned int": ("int", 32, False), "char": ("int", 8, None), "unsigned char": ("int", 8, False),
    "signed char": ("int", 8, True), "short": ("int", 16, True), "unsigned short": ("int", 16, False),
    "long": ("int", 64, True), "unsigned long": ("int", 64, False), "long long": ("int", 64, True), "unsigned long long": ("int", 64, False),
    "size_t": ("int", 64, False), "ssize_t": ("int", 64, True), "off_t": ("int", 64, True),
    "bool": ("bool",), "_Bool": ("bool",), "double": ("float", 64), "float": ("float", 32), "void": ("void",),
}
RINT = {"u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "usize": (64, False),
        "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True), "isize": (64, True)}


def ctype(H, q):
    q = H.resolve(q)
    q = q.replace("const ", "").replace(" const", "").strip()
    if q.endswith("*"):
        return ("ptr", ctype(H, q[:-1].strip()))
    if q.startswith("enum "):
        return ("enum", q[5:])
    if q in SCALARS:
        return SCALARS[q]
    return ("opaque", q)


def rtype(F, t):
    ty = F.types[t]
    k = ty["k"]
    if k == "int":
        return ("int",) + RINT[ty["s"]]
    if k == "bool":
        return ("bool",)
    if k == "float":
        return ("float", 64 if ty["s"] == "f64" else 32)
    if k == "tuple" and not ty["a"]:
        return ("void",)
    if k in ("ptr", "ref"):
        return ("ptr", rtype(F, ty["t"]))
    if k == "adt":
        d = ty["d"]
        if d == "core::option::Option":
            r = rtype(F, ty["a"][0])
            return r if r[0] == "ptr" else ("other", ty["s"])
        if d.endswith("c_void"):
            return ("void",)
        a = F.adts.get(d)
        if a and a["kind"] == "enum" and (a["repr_c"] or a["repr_int"]):
            ri = str(a["repr_int"] or "Fixed(I32, false)")
            bits = 8 if "I8" in ri else 16 if "I16" in ri else 64 if "I64" in ri else 32
            return ("enum", d, bits)
        return ("opaque", d)
    return ("other", ty["s"])


def compat(c, r, depth=0):
    if c[0] == "enum":
        return (r[0] == "enum" and r[2] == 32) or (r[0] == "int" and r[1] == 32)
    if c[0] == "int":
        if r[0] == "enum":
            return c[1] == r[2]
        return r[0] == "int" and c[1] == r[1] and (c[2] is None or c[2] == r[2] or depth > 0)
    if c[0] in ("bool", "float", "void"):
        if depth and c[0] == "void":
            return True
        return c == r
    if c[0] == "ptr":
        return r[0] == "ptr" and compat(c[1], r[1], depth + 1)
    if c[0] == "opaque":
        # an incomplete struct: only ever behind a pointer
        return depth > 0 and r[0] in ("opaque", "void")
    return False


# header enum -> suffix of the Rust enum it describes, and whether a Rust value may reach C and needs a name there
PAIRS = [
    ("or_error", "capi::or_error", True),
    ("or_data_type", "capi::or_data_type", True),
    ("or_cfa_pattern", "capi::or_cfa_pattern", True),
    ("or_rawfile_type", "libopenraw::Type", True),
    ("or_ifd_dir_type", "capi::ifd::or_ifd_dir_type", True),
    ("or_options", "capi::or_options", True),
    ("debug_level", "capi::debug_level", True),
    ("or_colour_matrix_origin", "colour::MatrixOrigin", True),
    ("or_cfa_pattern_colour", "mosaic::PatternColour", False),
    ("ExifLightsourceValue", "tiff::exif::LightsourceValue", False),
    ("ExifTagType", "tiff::exif::TagType", False),
]


def norm(n):
    return n.replace("_", "").upper()


def strip_prefix(names):
    """Drop the longest common prefix that ends in an underscore."""
    keep = [n for n in names if not n.startswith("_") and not n.endswith("_")]
    if len(keep) < 2:
        return {n: n for n in names}
    p = keep[0]
    for n in keep[1:]:
        while not n.startswith(p):
            p = p[:-1]
    p = p[:p.rfind("_") + 1]
    return {n: n[len(p):] if n.startswith(p) else n for n in names}


def find_adt(F, suffix):
    c = [d for d, a in F.adts.items() if (d == suffix or d.endswith("::" + suffix)) and a["kind"] == "enum"]
    if c:
        return c[0]
    last = suffix.split("::")[-1]
    c = [d for d, a in F.adts.items() if d.split("::")[-1] == last and a["kind"] == "enum" and a["local"]]
    return c[0] if len(c) == 1 else None


def run(F, R):
    R.rule("exported", "every or_* function declared in a public header is exported by the library")
    R.rule("arity", "the exported function has as many parameters as the header declares")
    R.rule("param-type", "each parameter has the same width, signedness and pointer depth as in the header")
    R.rule("return-type", "the return value has the same width, signedness and pointer depth as in the header")
    R.rule("enum-value", "a name of a header enum and of the matching Rust enum stands for the same value")
    R.rule("enum-named", "each value of a Rust enum handed to C has a name in the header enum")
    R.rule("enum-distinct", "two names of one header enum do not share a value")
    R.rule("exif-tag", "a tag name of exif.h and the same tag constant in Rust stand for the same number")
    H = headers.load(F.repo)
    ex = {f["sym"]: (k, f) for k, f in capi.exports(F)}
    n = 0
    for name, h in sorted(H.fns.items()):
        if not name.startswith("or_") or h["inline"]:
            continue
        n += 1
        where = "include/libopenraw/%s:%s" % (h["file"], h["line"])
        if not R.check(name in ex, "exported", name, "%s is declared but the library does not export it" % name, where):
            continue
        k, f = ex[name]
        rw = "%s:%s" % (f["file"], f["line"])
        if not R.check(len(f["in"]) == len(h["params"]), "arity", name,
                       "%s takes %d parameters, the header declares %d" % (name, len(f["in"]), len(h["params"])), rw):
            continue
        for i, (pn, q) in enumerate(h["params"]):
            c, r = ctype(H, q), rtype(F, f["in"][i])
            R.check(compat(c, r), "param-type", "%s#%d" % (name, i),
                    "parameter %d of %s is %s, the header declares %s" % (i + 1, name, F.tys(f["in"][i]), q), rw)
        c, r = ctype(H, h["ret"]), rtype(F, f["out"])
        R.check(compat(c, r), "return-type", name,
                "%s returns %s, the header declares %s" % (name, F.tys(f["out"]), h["ret"]), rw)
    R.floor("exported", 60)
    R.floor("param-type", 90)

    # enums named by a header signature and by the matching Rust signature pair up by themselves
    pairs = {}
    for hn, suf, named in PAIRS:
        d = find_adt(F, suf)
        pairs[hn] = (d, named)
    for name, (k, f) in ex.items():
        h = H.fns.get(name)
        if not h:
            continue
        for q, t in [(h["ret"], f["out"])] + list(zip([p[1] for p in h["params"]], f["in"])):
            c, r = ctype(H, q), rtype(F, t)
            while c[0] == "ptr" and r[0] == "ptr":
                c, r = c[1], r[1]
            if c[0] == "enum" and r[0] == "enum":
                pairs[c[1]] = (r[1], True)
    for hn, (d, named) in sorted(pairs.items()):
        if hn not in H.enums:
            R.bad("enum-value", hn, "the header enum %s no longer exists" % hn, "include/libopenraw")
            continue
        if d is None:
            # the Rust side is gone: nothing is returned through it
            R.note("no Rust enum for %s" % hn)
            continue
        hf, vals = H.enums[hn]
        a = F.adts[d]
        where = "%s:%s" % (a["file"], a["line"])
        strip = strip_prefix([x for x, _ in vals])
        hv = {norm(strip[x]): v for x, v in vals}
        hby = {}
        for x, v in vals:
            hby.setdefault(v, []).append(norm(strip[x]))
        rv = {norm(v["n"]): v["discr"] for v in a["v"]}
        for rn, v in rv.items():
            if rn in hv:
                R.check(hv[rn] == v, "enum-value", "%s::%s" % (hn, rn),
                        "%s %s is %d in Rust and %d in %s" % (hn, rn, v, hv[rn], hf), where)
            else:
                others = [o for o in hby.get(v, []) if o in rv and rv[o] != v]
                R.check(not others, "enum-value", "%s::%s" % (hn, rn),
                        "value %d is %s in Rust and %s in %s" % (v, rn, ",".join(others), hf), where)
            if named:
                R.check(v in hby, "enum-named", "%s::%s" % (hn, rn),
                        "%s has no name for %d (%s) which the library can return" % (hn, v, rn), where)
    R.floor("enum-value", 60)
    R.floor("enum-named", 50)
    for hn, (hf, vals) in sorted(H.enums.items()):
        if hf == "cameraids.h" or hn in ("ExifTag",):
            continue  # identifier tables are decided by T02; one Exif number means different tags in different directories
        seen = {}
        for x, v in vals:
            R.check(v not in seen, "enum-distinct", "%s|%s" % (hn, x), "%s and %s are both %d" % (seen.get(v), x, v), "include/libopenraw/" + hf)
            seen.setdefault(v, x)
    tags = dict(H.enums.get("ExifTag", ("", []))[1])
    rt = {}
    for k, c in F.consts.items():
        last = k.split("::")[-1]
        if "::exif::" in k and isinstance(c.get("v"), int):
            rt[last.lstrip("_").upper()] = (c["v"], c)
    for hn, v in tags.items():
        key = hn.replace("EXIF_TAG_", "", 1).lstrip("_").upper()
        for cand in (hn.upper(), key):
            if cand in rt:
                R.check(rt[cand][0] == v, "exif-tag", hn, "%s is %d in exif.h and %d in Rust" % (hn, v, rt[cand][0]),
                        "%s:%s" % (rt[cand][1]["file"], rt[cand][1]["line"]))
                break
    R.floor("exif-tag", 120)
    R.assume("the header is read with clang for this host (64-bit, 4-byte enums)")
