"""C06: what C accessors report is the object's own: sizes match buffers, attributes are the ones asked for."""
from capi import *
from spec import Spec
import bounds
import re

# What an accessor is named for: parameter (or "ret") -> names of the attribute of the object it must deliver.
# None: the path of names is the attribute and a component of it.
RECT = ("x", "y", "width", "height")


def spec():
    t = {}
    for o in ("bitmapdata", "rawdata", "thumbnail"):
        t["or_%s_dimensions" % o] = {2: ["width"], 3: ["height"]}
        t["or_%s_data_size" % o] = {"ret": ["data_size"]}
    t["or_mosaicinfo_get_size"] = {2: ["width"], 3: ["height"]}
    t["or_bitmapdata_bpc"] = {"ret": ["bpc"]}
    t["or_rawdata_bpc"] = {"ret": ["bpc"]}
    for a in ("active_area", "user_crop"):
        t["or_rawdata_get_" + a] = {i + 2: [a, n] for i, n in enumerate(RECT)}
    t["or_rawdata_get_user_aspect_ratio"] = {2: ["user_aspect_ratio", "0"], 3: ["user_aspect_ratio", "1"]}
    t["or_rawdata_as_shot_white_xy"] = {2: ["as_shot_white_xy", "0"], 3: ["as_shot_white_xy", "1"]}
    t["or_rawdata_get_compression"] = {"ret": ["compression"]}
    t["or_rawdata_get_mosaicinfo"] = {"ret": ["mosaic_pattern"]}
    t["or_rawdata_get_cfa_pattern_type"] = {"ret": ["mosaic_pattern"]}
    t["or_rawdata_get_colour_matrix"] = {"ret": ["colour_matrix(a2)", "matrix", "ptr"], 3: ["colour_matrix(a2)", "matrix", "len"]}
    t["or_rawdata_levels"] = {2: ["blacks", "copy"], 3: ["whites", "copy"]}
    t["or_rawdata_as_shot_neutral"] = {2: ["as_shot_neutral", "copy"]}
    t["or_rawfile_get_calibration_illuminant1"] = {"ret": ["calibration_illuminant(1)"]}
    t["or_rawfile_get_calibration_illuminant2"] = {"ret": ["calibration_illuminant(2)"]}
    t["or_rawfile_get_orientation"] = {"ret": ["orientation"]}
    t["or_rawfile_get_type"] = {"ret": ["type_"]}
    t["or_rawfile_get_thumbnail_sizes"] = {"ret": ["thumbnail_sizes", "ptr"], 2: ["thumbnail_sizes", "len"]}
    t["or_mosaicinfo_get_pattern"] = {"ret": ["pattern", "ptr"], 2: ["pattern", "len"]}
    t["or_ifd_count_tags"] = {"ret": ["num_entries"]}
    t["or_metavalue_get_count"] = {"ret": ["count"]}
    return t


# Library value -> C value, where the names differ more than in spelling.
ENUMS = {"or_data_type": {"Jpeg": "JPEG", "PixmapRgb8": "PIXMAP_8RGB", "PixmapRgb16": "PIXMAP_16RGB", "CompressedRaw": "COMPRESSED_RAW", "Raw": "RAW", "Unknown": "UNKNOWN"},
         "or_cfa_pattern": {"Empty": "NONE"}, "or_ifd_dir_type": {"MakerNote": "MNOTE"}}
SKIP = {"into", "from", "clone", "deref", "as_ref", "borrow", "copied", "cloned", "to_owned", "as_slice", "deref_mut", "cast", "cast_mut", "cast_const", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "map", "as_deref"}
COPIES = {"copy": (1, 0), "copy_nonoverlapping": (1, 0), "copy_from": (0, 1), "copy_from_nonoverlapping": (0, 1), "copy_to": (1, 0), "copy_to_nonoverlapping": (1, 0)}


class Rec(Explorer):
    """Also records what is copied through raw pointers, with the path it happens on."""
    def model(self, st, n, res, ta, args, depth, body, line, dty, atys):
        tail = n.split("::")[-1]
        if tail in COPIES and len(args) == 3 and "ptr" in n:
            d, s = COPIES[tail]
            self.copies.append((args[d], args[s], args[2], body, line))
        if tail in ("copy_from_slice", "clone_from_slice") and len(args) == 2:
            d = args[0]
            if d[0] == "call" and d[1].split("::")[-1] == "from_raw_parts_mut" and strip_cast(d[2][0])[0] == "arg":
                if strip_cast(d[2][1])[0] == "int":
                    # a fixed number: like a copy of that many values
                    self.copies.append((d[2][0], ("call", "slice::as_ptr", (args[1],), None), strip_cast(d[2][1]), body, line))
                else:
                    self.buffers.append((d[2][1], args[1], dict(st.facts), body, line))
        return super().model(st, n, res, ta, args, depth, body, line, dty, atys)

    copies = buffers = None


def run(F, R):
    R.rule("count", "an array handed to C comes with the number of its own elements")
    R.rule("copied", "as many values are copied to a C buffer as the copied array has, and a buffer the caller gives the size of is never overrun")
    R.rule("attribute", "a C accessor delivers the attribute it is named for")
    R.rule("data-size", "the size in bytes reported for an image is the size of the data it hands out, for every kind of data")
    R.rule("data-null", "a data pointer is NULL only when the image holds no data, or none of the kind its type says")
    R.rule("enum", "an enumeration value is reported to C as the value of the same name")
    T = spec()
    seen = set()
    # ---- attributes, counts and copies
    for k, f in exports(F):
        b = F.bodies[k]
        sym = f["sym"]
        where = "%s:%d" % (f["file"], f["line"])
        E = Rec(F, inline=inline_pred(F))
        E.copies, E.buffers = [], []
        try:
            rs = E.run(b)
        except Limit:
            R.bad("attribute", sym + "|limit", "%s is too large to be explored" % sym, where)
            continue
        A = lambda v: attr(F, E, v)
        outp = [i + 1 for i, t in enumerate(f["in"]) if F.types[t]["k"] == "ptr" and F.types[t].get("mut")]
        # counts
        if F.types[f["out"]]["k"] == "ptr" and outp:
            for i in outp:
                if F.tys(F.types[f["in"][i - 1]]["t"]) not in ("u16", "u32", "usize", "i32", "u64", "i64", "u8", "i16"):
                    continue
                bad, n = None, 0
                for s, rv in rs:
                    p = A(rv)
                    w = s.heap.get((("arg", i), ()))
                    if not p or p[-1] != "ptr":
                        continue
                    if s.facts.get(("isnull", ("arg", i))) is True:
                        continue
                    n += 1
                    c = A(w) if w is not None else None
                    if w is None:
                        bad = "the number of elements is not stored"
                    elif c != p[:-1] + ["len"]:
                        bad = "%s is stored as the number of elements of %s" % (".".join(c) if c else "another value", ".".join(p[:-1]))
                if n:
                    R.check(bad is None, "count", "%s|%d" % (sym, i), "%s: %s" % (sym, bad), where)
        # copies
        done = set()
        for d, s, n, bd, line in E.copies:
            p = A(s)
            if (str(d), str(s), str(n)) in done:
                continue
            done.add((str(d), str(s), str(n)))
            size = length(F, E, s)
            c = A(n)
            ns = strip_cast(n)
            own = ns[0] == "call" and ns[1].split("::")[-1] == "len" and source(ns[2][0]) == source(s)
            good = n[0] == "int" and size is not None and n[1] == size or p and c and c == p[:-1] + ["len"] or own
            R.check(good, "copied", "%s|%s" % (sym, ".".join(p or ["?"])), "%s copies %s values of an array of %s" % (sym, n[1] if n[0] == "int" else ".".join(c or ["?"]), size if size is not None else "unknown length"), "%s:%s" % (bd.file, line))
        for n, src, facts, bd, line in E.buffers:
            need = count_of(n)
            have = len_of(src)
            at = "%s:%s" % (bd.file, line)
            R.check(have is not None and need == have, "copied", sym + "|length", "%s fills a buffer of %s values from an array of %s: it panics unless they are equally many" % (sym, text(need), text(have)), at)
            R.check(need[0] == "int" or any(fits(kk, v, need) for kk, v in facts.items()), "copied", sym + "|capacity", "%s fills the caller's buffer without having compared its size with the number of values" % sym, at)
        # attributes
        if sym not in T:
            continue
        seen.add(sym)
        for slot, want in T[sym].items():
            got, told = [], False
            if slot == "ret":
                vals = [rv for s, rv in rs if not const_like(rv)]
            elif want[-1] == "copy":
                vals = [s for d, s, n, bd, line in E.copies if strip_cast(d) == ("arg", slot)]
            else:
                vals = [v for s, rv in rs for (a, pr), v in s.heap.items() if a == ("arg", slot) and not pr]
            if not vals and slot != "ret" and spread(F, b, slot - 1):
                continue   # stored in a way the walk does not follow
            if not vals:
                R.check(False, "attribute", "%s|%s" % (sym, slot), "%s never delivers %s" % (sym, ".".join(want)), where)
                continue
            bad = None
            for v in vals:
                a = A(v)
                if want[-1] == "copy" and a and a[-1] == "ptr":
                    a = a[:-1] + ["copy"]
                if a is None and not const_like(v):
                    mixed = [o for o in operands(v) if A(o) and A(o) != want]
                    if mixed:
                        bad = "a value computed from " + ".".join(A(mixed[0]))
                    continue   # otherwise computed in a way this rule cannot read
                if a is None or not same(F, a, want):
                    bad = ".".join(a) if a else "a constant"
            R.check(bad is None, "attribute", "%s|%s" % (sym, slot), "%s delivers %s instead of %s%s" % (sym, bad, ".".join(want), "" if slot == "ret" else " through parameter %d" % slot), where)
    R.floor("attribute", 30)
    R.floor("count", 3)
    R.floor("copied", 3)

    # ---- data and its size
    trait = next((d for d in {ti.rsplit("::", 1)[0] for im in F.impls for n, it, ti in im["items"] if n == "data_size"}), None)
    holders = {}
    for im in F.impls:
        if im["trait"] == trait:
            holders[F.types[im["self"]].get("d")] = {n: it for n, it, ti in im["items"]}
    R.check(bool(holders), "data-size", "anchor", "no implementation of data_size was found", "src/bitmap.rs")
    for d, items in sorted(holders.items()):
        table = {}
        for m in ("data_size", "data8", "data16"):
            b = F.bodies.get(items.get(m) or "")
            if b is None:
                continue
            E = Explorer(F, inline=lambda bd: False)
            try:
                rs = E.run(b)
            except Limit:
                rs = []
            for s, rv in rs:
                var = frozenset((v) for kk, v in s.facts.items() if kk[0] == "variant" and isinstance(v, int) and "'arg', 1" in str(kk[1]))
                table.setdefault(m, []).append((var, rv, s))
        w = "%s:%s" % (F.bodies[items["data_size"]].file, F.bodies[items["data_size"]].line)
        for m, size in (("data8", 1), ("data16", 2)):
            for var, rv, s in table.get(m, []):
                if not (rv[0] == "agg" and rv[2].endswith("Option") and rv[3] == 1):
                    continue
                obj = root(rv[4][0])
                for var2, sz, s2 in table.get("data_size", []):
                    if var and var2 and var != var2:
                        continue
                    n = bytes_of(sz)
                    if n is None:
                        continue
                    R.check(n == (obj, size), "data-size", "%s|%s" % (d, m), "%s reports %s bytes for each of the elements %s hands out" % (F.nice(items["data_size"]), n[1] if n[0] == obj else "another object's", m), w)
    for k, f in exports(F):
        m = re.match(r"or_(\w+)_data$", f["sym"])
        if not m:
            continue
        b = F.bodies[k]
        where = "%s:%d" % (f["file"], f["line"])
        t = F.types[f["in"][0]]
        d = F.types[t["t"]].get("d") if t["k"] == "ptr" else None
        items = holders.get(d)
        if items is None:
            R.bad("data-null", f["sym"] + "|holder", "%s hands out the data of a type without a size" % f["sym"], where)
            continue
        kinds = [n for n in ("data8", "data16") if n in items]
        E = explorer(F)
        bad = None
        n = 0
        for s, rv in E.run(b):
            if strip_cast(rv) != ("null",) or s.facts.get(("isnull", ("arg", 1))) is True:
                p = attr(F, E, rv)
                if p:
                    n += 1
                    R.check(p[-1] == "ptr" and p[0] in kinds, "data-null", f["sym"] + "|" + p[0], "%s hands out %s" % (f["sym"], ".".join(p)), where)
                continue
            absent = {kk[1][1].split("::")[-1] for kk, v in s.facts.items() if kk[0] == "variant" and v == 0 and isinstance(kk[1], tuple) and kk[1][0] == "call" and kk[1][1].split("::")[-1] in ("data8", "data16")}
            typed = [(E.vtypes.get(kk[1]), v) for kk, v in s.facts.items() if kk[0] == "variant" and isinstance(kk[1], tuple) and kk[1][0] == "call" and kk[1][1].split("::")[-1] == "data_type"]
            need = kinds
            if typed:
                a = F.adts.get(F.types[typed[0][0]].get("d") or "") if typed[0][0] is not None else None
                nm = a["v"][typed[0][1]]["n"] if a and isinstance(typed[0][1], int) and typed[0][1] < len(a["v"]) else ""
                need = [x for x in kinds if nm.endswith(x[4:])]
            lost = [x for x in need if x not in absent]
            if lost:
                bad = lost[0]
        R.check(bad is None, "data-null", f["sym"], "%s returns NULL on a path where %s may hold data" % (f["sym"], bad), where)
        R.check(n > 0, "data-null", f["sym"] + "|any", "%s never returns data" % f["sym"], where)
    R.floor("data-size", 2)
    R.floor("data-null", 5)

    # ---- enumerations
    n = 0
    for im in F.impls:
        if im["trait"] != "core::convert::From":
            continue
        to = F.types[im["self"]].get("d")
        tn = (to or "").split("::")[-1]
        if not to or F.adts.get(to, {}).get("kind") != "enum":
            continue
        for nm, item, ti in im["items"]:
            b = F.bodies.get(item)
            if b is None:
                continue
            t = b.lty(1)
            while F.types[t]["k"] == "ref":
                t = F.types[t]["t"]
            fr = F.types[t].get("d")
            if not fr or F.adts.get(fr, {}).get("kind") != "enum":
                continue
            fn = fr.split("::")[-1]
            if not (tn.startswith("or_") or fn.startswith("or_")) or "or_error" in (tn, fn):
                continue
            names = {v["n"]: i for i, v in enumerate(F.adts[to]["v"])}
            cmap = ENUMS.get(tn if tn.startswith("or_") else fn, {})
            if not tn.startswith("or_"):
                cmap = {v: kx for kx, v in cmap.items()}
            for i, v in enumerate(F.adts[fr]["v"]):
                want = cmap.get(v["n"]) or next((x for x in names if norm(x) == norm(v["n"])), None)
                if want is None or want not in names:
                    continue
                pay = tuple(None for _ in v["f"])
                r = Spec(F).run(item, (("adt", fr, i, pay),))[0]
                if not (isinstance(r, tuple) and r[0] == "adt"):
                    continue
                n += 1
                got = F.adts[to]["v"][r[2]]["n"]
                R.check(got == want, "enum", "%s|%s|%s" % (fn, tn, v["n"]), "%s::%s becomes %s::%s, not %s" % (fn, v["n"], tn, got, want), "%s:%s" % (b.file, b.line))
    R.floor("enum", 20)
    R.assume("accessors and fields deliver what they are named for (checked on its own for the library's getters)")


def norm(n):
    return n.replace("_", "").lower()


def const_like(v):
    v = strip_cast(v)
    while v[0] == "discr":
        v = strip_cast(v[1])
    return v[0] in ("int", "null", "uninit", "float") or v[0] == "agg" and not v[4]


def same(F, a, want):
    return a == want


def ty_of(F, E, v):
    """Type of a term, where the explorer knows it."""
    if v[0] == "call":
        return E.vtypes.get(v)
    if v[0] == "field":
        t = ty_of(F, E, v[1])
        while t is not None and F.types[t]["k"] in ("ref", "ptr"):
            t = F.types[t]["t"]
        if t is None:
            return None
        x = F.types[t]
        if x["k"] == "adt" and (x["d"].endswith("option::Option") or x["d"].endswith("result::Result")):
            return x["a"][0]
        if x["k"] == "tuple":
            i = v[2][1]
            return x["a"][i] if i < len(x["a"]) else None
        return field_ty(F, x, v[2][1])
    return None


def field_ty(F, x, i):
    a = F.adts.get(x.get("d") or "")
    if a and a["kind"] == "struct" and i < len(a["v"][0]["f"]):
        return a["v"][0]["f"][i]["t"]
    return None


def attr(F, E, v):
    """Names leading to a value: the accessor called (with constants and arguments it is given) and components; None when unreadable."""
    if v[0] in ("cast", "discr", "own"):
        return attr(F, E, v[1])
    if v[0] == "call":
        n = v[1].split("::")[-1]
        args = v[2]
        if n in ("as_ptr", "as_mut_ptr"):
            r = attr(F, E, args[0])
            return r + ["ptr"] if r else None
        if n == "len" and len(args) == 1:
            r = attr(F, E, args[0])
            return r + ["len"] if r else None
        if n in SKIP and args:
            return attr(F, E, args[0])
        if not args:
            return None
        ex = []
        for x in args[1:]:
            x = strip_cast(x)
            if x[0] == "int":
                ex.append(str(x[1]))
            elif x[0] == "arg":
                ex.append("a%d" % x[1])
            else:
                ex.append("_")
        return [n + ("(%s)" % ",".join(ex) if ex else "")]
    if v[0] == "addr":
        return attr(F, E, v[1])
    if v[0] in ("M", "mem"):
        return comps(F, E, v[1], [p for p in v[2]])
    if v[0] == "field":
        return comps(F, E, v[1], [v[2]])
    return None


def comps(F, E, base, proj):
    r = attr(F, E, base)
    t = ty_of(F, E, base)
    if base[0] == "arg":
        r = []
    if r is None:
        return None
    for p in proj:
        if not (isinstance(p, tuple) and p[0] == "f"):
            continue
        while t is not None and F.types[t]["k"] in ("ref", "ptr"):
            t = F.types[t]["t"]
        x = F.types[t] if t is not None else None
        if x is not None and x["k"] == "adt" and (x["d"].endswith("option::Option") or x["d"].endswith("result::Result")):
            t = x["a"][0]
            continue
        if x is not None and x["k"] == "adt" and x["d"] in F.adts and F.adts[x["d"]]["kind"] == "struct" and p[1] < len(F.adts[x["d"]]["v"][0]["f"]):
            r = r + [F.adts[x["d"]]["v"][0]["f"][p[1]]["n"]]
            t = F.adts[x["d"]]["v"][0]["f"][p[1]]["t"]
        else:
            r = r + [str(p[1])]
            t = x["a"][p[1]] if x is not None and x["k"] == "tuple" and p[1] < len(x["a"]) else None
    return r


def length(F, E, s):
    """Constant number of elements of the array a pointer was taken from."""
    s = strip_cast(s)
    if s[0] == "call" and s[1].split("::")[-1] in ("as_ptr", "as_mut_ptr"):
        v = strip_cast(s[2][0])
        if v[0] == "addr" and v[1][0] == "M" and not v[1][2]:
            v = v[1][1]
        t = ty_of(F, E, v)
        while t is not None and F.types[t]["k"] in ("ref", "ptr"):
            t = F.types[t]["t"]
        if t is not None and F.types[t]["k"] == "array":
            n = F.types[t].get("len")
            return n if isinstance(n, int) else None
        if t is not None and F.types[t]["k"] == "slice":
            while v[0] == "field":
                v = v[1]
            return made_from(F, v[1]) if v[0] == "call" else None
    return None


def made_from(F, nice):
    """Length of the arrays a library function makes the slices it returns from."""
    bs = [b for b in F.bodies.values() if b.kind == "fn" and b.nice == nice]
    if len(bs) != 1:
        return None
    lo, hi = bounds.payload_len_lb(F, bs[0].id), bounds.payload_len_ub(F, bs[0].id)
    return lo if lo == hi else None


def operands(v):
    """Leaves of a sum, product or difference."""
    v = strip_cast(v)
    if v[0] == "bin":
        return [o for x in v[1:] if isinstance(x, tuple) for o in operands(x)]
    return [v]


def source(v):
    """The array a pointer or length was taken of."""
    v = strip_cast(v)
    while v[0] == "call" and v[1].split("::")[-1] in ("as_ptr", "as_mut_ptr", "as_slice", "deref", "as_ref", "borrow"):
        v = strip_cast(v[2][0])
    return root(v)


def count_of(v):
    v = strip_cast(v)
    if v[0] == "call" and v[1].split("::")[-1] == "len" and len(v[2]) == 1:
        return ("len", root(v[2][0]))
    return v if v[0] == "int" else ("value", strip_sites(v))


def len_of(v):
    """Number of elements of a slice."""
    v = strip_cast(v)
    if v[0] == "call" and v[1].split("::")[-1] == "index":
        r = v[2][1]
        if r[0] == "agg" and r[2].endswith("RangeTo"):
            n = count_of(r[4][0])
            return n if n == ("len", root(v[2][0])) else ("part", n)
        if r[0] == "agg" and r[2].endswith("RangeFull"):
            return len_of(v[2][0])
        return None
    return ("len", root(v))


def text(n):
    if n is None:
        return "unknown length"
    return {"int": str(n[1]), "len": "its own length", "part": "at most its own length", "value": "another number of"}.get(n[0], "?")


def fits(k, v, need):
    """The fact says that a number the caller gave is at least `need`."""
    if need[0] == "value" and need[1][0] in ("mem", "arg"):
        return True
    if k[0] != "bool" or not isinstance(k[1], tuple) or k[1][0] != "bin":
        return False
    op, a, c = k[1][1], k[1][2], k[1][3]
    def cap(x):
        x = strip_cast(x)
        return x[0] in ("mem", "arg") and "arg" in str(x)
    a_, c_ = count_of(a), count_of(c)
    return (cap(a) and c_ == need and (op, v) in (("Lt", False), ("Ge", True), ("Gt", True), ("Eq", True), ("Ne", False))
            or cap(c) and a_ == need and (op, v) in (("Gt", False), ("Le", True), ("Lt", True), ("Eq", True), ("Ne", False)))


def root(v):
    """The object a reference designates, for comparison."""
    while True:
        v = strip_cast(v)
        if v[0] == "addr":
            v = v[1]
        elif v[0] == "call" and v[1].split("::")[-1] in ("deref", "as_slice", "as_ref", "borrow"):
            v = v[2][0]
        else:
            break
    return strip_sites(v)


def strip_sites(v):
    if isinstance(v, tuple):
        if v and v[0] == "call":
            return ("call", v[1], tuple(strip_sites(x) for x in v[2]))
        return tuple(strip_sites(x) for x in v)
    return v


def bytes_of(v):
    """(object, bytes per element) of a size in bytes made from a number of elements."""
    v = strip_cast(v)
    if v[0] == "call" and v[1].split("::")[-1] == "len":
        return root(v[2][0]), 1
    if v[0] == "call" and v[1].split("::")[-1] == "size_of_val":
        return None
    if v[0] == "bin" or v[0] == "call" and v[1].split("::")[-1] in ("wrapping_mul", "saturating_mul"):
        ops = [x for x in v[1:] if isinstance(x, tuple)] if v[0] == "bin" else list(v[2])
        opn = [x for x in v[1:] if isinstance(x, str)] if v[0] == "bin" else ["Mul"]
        if len(ops) == 2 and opn and opn[0].startswith("Mul"):
            for a, c in (ops, ops[::-1]):
                if strip_cast(c)[0] == "int":
                    i = bytes_of(a)
                    if i:
                        return i[0], i[1] * strip_cast(c)[1]
    return None
