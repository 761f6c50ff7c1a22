"""T02: camera identities and per-camera tables are consistent."""
import re
import headers, tables
from tables import TOP, is_adt, key, Seq, Table

CAM = "libopenraw::camera_ids::"
# brands whose cameras another vendor's module handles: (module, vendor module of the camera)
PARTNERS = {("panasonic", "leica"), ("pentax", "ricoh"), ("sony", "hasselblad")}


def norm(s, vendor=""):
    s = re.sub(r"[^A-Z0-9]", "", s.upper())
    return s


def table_defs(F, body):
    """Camera constants named in a table initialiser: (vendor const, model const, line) per TypeId built."""
    pass


def tids(v):
    if is_adt(v, "TypeId"):
        yield v
    elif isinstance(v, (Seq, Table)):
        for x in v.items:
            yield from tids(x)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from tids(x)


# numbers kept for cameras the library deliberately does not tell apart (CHDK files, the 60D's model id)
RESERVED = {("canon", "A610"), ("canon", "G7"), ("canon", "EOS_60DA")}


def run(F, R):
    R.rule("unique", "two vendors, or two cameras of a vendor, share a number only when one is declared as an alias of the other")
    R.rule("header", "a vendor or camera named by the public C header has the same number in the library")
    R.rule("pairing", "a camera identity pairs a vendor with a camera of that vendor")
    R.rule("declared", "every identity in a table is a declared vendor and a declared camera of that vendor")
    R.rule("own-vendor", "a vendor's per-camera tables refer only to cameras of that vendor or of the brands it builds")
    R.rule("one-entry", "no lookup table holds two different entries for the same key")
    R.rule("one-number", "in a table from model numbers to cameras, two model numbers never lead to the same camera")
    R.rule("own-name", "in a table from model names to cameras, a name that is a camera's own never leads to another camera")
    R.rule("matrix-reachable", "every camera with a built-in colour matrix can be identified by some model table")
    R.rule("identifiable", "every declared camera is the identity some model table leads to")
    R.rule("table-known", "the values a lookup table will hold are compile-time constants the analysis can determine")
    H = headers.load(F.repo)
    mods = {}
    alias = {}
    for k, c in F.consts.items():
        if not k.startswith(CAM) or c["static"]:
            continue
        m, n = k[len(CAM):].split("::")[:2]
        v = tables.norm(c["v"])
        mods.setdefault(m, {})[n] = (v, c)
        b = F.bodies.get(k)
        if b:
            for _, _, s in b.stmts():
                if s["k"] == "=" and s["r"]["k"] == "use" and s["r"]["o"]["k"] == "const" and s["r"]["o"].get("def", "").startswith(CAM):
                    alias[k] = s["r"]["o"]["def"]
                if s["k"] == "=" and s["r"]["k"] == "use" and s["r"]["o"]["k"] == "const" and s["r"]["o"].get("def") is None:
                    pass

    def root(k):
        seen = set()
        while k in alias and k not in seen:
            seen.add(k)
            k = alias[k]
        return k
    vend = mods.get("vendor", {})
    vnum = {v: n for n, (v, _) in vend.items()}
    # --- header
    def hdr(prefix, e):
        if e not in H.enums:
            return {}
        return {n[len(prefix):]: v for n, v in H.enums[e][1] if n.startswith(prefix)}
    hv = hdr("OR_TYPEID_VENDOR_", "_OR_TYPE_ID_VENDOR")
    haliases = {}
    for m, ids in sorted(mods.items()):
        where = lambda c: "%s:%s" % (c["file"], c["line"])
        h = hv if m == "vendor" else hdr("OR_TYPEID_%s_" % m.upper(), "_OR_TYPEID_VENDOR_" + m.upper())
        hn = {}
        for n, v in h.items():
            hn.setdefault(norm(n), v)
            if m == "canon" and not n.startswith("EOS"):
                hn.setdefault(norm("EOS_" + n), v)
        seen = {}
        for n, (v, c) in sorted(ids.items(), key=lambda x: x[1][1]["line"]):
            if not isinstance(v, int):
                R.bad("unique", "%s::%s" % (m, n), "%s::%s has no constant value" % (m, n), where(c))
                continue
            r = root(CAM + m + "::" + n)
            if v in seen and seen[v][0] != r:
                # the header may declare the alias
                a, b = hn.get(norm(n)), hn.get(norm(seen[v][1]))
                R.bad("unique", "%s|%s|%s" % (m, seen[v][1], n), "%s::%s and %s::%s have the same number %d" % (m, seen[v][1], m, n, v), where(c))
            else:
                R.ok("unique")
                seen.setdefault(v, (r, n))
            if norm(n) in hn:
                R.check(hn[norm(n)] == v, "header", "%s|%s" % (m, n), "%s::%s is %d, the C header says %d" % (m, n, v, hn[norm(n)]), where(c))
    for n in hv:
        if n != "_LAST" and not n.startswith("_"):
            R.check(n in vend, "header", "vendor|%s|absent" % n, "the C header names the vendor %s, the library has none" % n, "include/libopenraw")
    # --- identities
    for b in F.bodies.values():
        for _, _, s in b.stmts():
            if s["k"] != "=" or s["r"]["k"] != "agg" or s["r"]["ak"] != "adt" or not s["r"]["d"].endswith("::TypeId"):
                continue
            ops = s["r"]["ops"]
            d = [o.get("def", "") if o["k"] == "const" else "" for o in ops]
            if len(d) != 2:
                continue
            where = "%s:%s" % (b.file, s["l"])
            if d[0].startswith(CAM + "vendor::"):
                vn = d[0].split("::")[-1].lower()
                if d[1].startswith(CAM):
                    mm = d[1][len(CAM):].split("::")[0]
                    R.check(mm == vn or (mm == "generic") or mm not in mods, "pairing", "%s|%s|%s" % (b.nice.split("::{")[0], vn, d[1][len(CAM):]), "the identity pairs the vendor %s with %s" % (vn.upper(), d[1][len(CAM):]), where)
            elif d[0].startswith(CAM):
                R.bad("pairing", "%s|%s" % (b.nice.split("::{")[0], d[0]), "%s is used as a vendor" % d[0][len(CAM):], where)
            elif d[1].startswith(CAM + "vendor::") and not d[1].endswith("::GENERIC"):
                R.bad("pairing", "%s|%s" % (b.nice.split("::{")[0], d[1]), "the vendor %s is used as a camera" % d[1][len(CAM):], where)
    # --- tables
    T = tables.all_tables(F)
    # constant arrays holding identities are tables, too
    for k, c in F.consts.items():
        if k.startswith("libopenraw::") and not k.startswith(CAM) and F.types[c["t"]]["k"] in ("array", "ref", "slice") and "TypeId" in F.tys(c["t"]):
            v = tables.norm(c["v"]) if c.get("v") is not None else TOP
            b = F.bodies.get(k)
            T[k] = tables.TableInfo(k, b, v, c["file"], c["line"], F.tys(c["t"]))
    identified = set()
    matrices = {}
    ncam = 0
    for k, t in sorted(T.items()):
        where = "%s:%s" % (t.file, t.line)
        mod = k.split("::")[1]
        short = "::".join(k.split("::")[1:])
        has_ids = "TypeId" in t.ty or "BuiltinMatrix" in t.ty
        if isinstance(t.value, Table):
            entries = t.pairs
        elif isinstance(t.value, Seq) and has_ids:
            entries = []
            for x in t.value.items:
                if is_adt(x, "BuiltinMatrix"):
                    entries.append((x[4][0], x))
                elif isinstance(x, tuple) and x[0] == "tup" and len(x[1]) >= 2:
                    entries.append((x[1][0], x))
        else:
            if has_ids or ("Map<" in t.ty and "CString" not in t.ty):
                R.bad("table-known", short, "the contents of the table %s cannot be determined from the source" % short, where)
            continue
        R.ok("table-known")
        seen = {}
        for a, v in entries:
            if a is TOP or a == TOP or tables.has_top(a):
                R.bad("table-known", short + "|key", "a key of %s cannot be determined from the source" % short, where)
                continue
            ka = key(a)
            label = a if isinstance(a, (str, int)) else key(a[4]) if is_adt(a) else ka
            if is_adt(a) and not a[4]:
                label = a[3]
            if ka in seen:
                R.check(key(seen[ka]) == key(v) and not tables.has_top(v), "one-entry", "%s|%s" % (short, label), "%s has two different entries for %s" % (short, label), where)
            else:
                seen[ka] = v
                R.ok("one-entry")
        if not has_ids:
            continue
        leads = {}
        for a, v in entries:
            if isinstance(t.value, Table) and isinstance(a, int) and len(list(tids(v))) == 1:
                x = list(tids(v))[0]
                o = leads.setdefault(key(x), a)
                R.check(o == a, "one-number", "%s|%s" % (short, a), "%s leads from both %s and %s to camera %s of %s" % (short, o, a, x[4][1], vnum.get(x[4][0])), where)
        for a, v in entries:
            ids = list(tids(a)) + (list(tids(v)) if not is_adt(v, "BuiltinMatrix") else [])
            for x in ids:
                ncam += 1
                vv, mm = x[4]
                vn = vnum.get(vv)
                if vn is None or not isinstance(mm, int):
                    R.bad("declared", "%s|%s" % (short, key(x[4])), "%s refers to the undeclared vendor %s" % (short, vv), where)
                    continue
                vm = vn.lower()
                R.check(vm in mods and any(y == mm for y, _ in mods[vm].values()), "declared", "%s|%s|%s" % (short, vn, mm), "%s refers to camera %s of %s, which is not declared" % (short, mm, vn), where)
                if mod in mods:
                    R.check(vm == mod or (mod, vm) in PARTNERS, "own-vendor", "%s|%s|%s" % (short, vn, mm), "%s refers to a camera of %s (number %s)" % (short, vn, mm), where)
                if isinstance(t.value, Table):
                    identified.add((vv, mm))
                else:
                    matrices[(vv, mm)] = (short, where)
                if isinstance(a, str) and vm in mods:
                    names = {}
                    for n, (y, _) in mods[vm].items():
                        names.setdefault(norm(n), set()).add(y)
                    ka = norm(a)
                    cands = {ka}
                    for pre in (norm(vn), "CANON", "NIKON", "CORPORATION", "EOS", "DMC", "DIGITAL"):
                        cands |= {c[len(pre):] for c in list(cands) if c.startswith(pre)}
                    cands |= {c[:-7] for c in list(cands) if c.endswith("DIGITAL")}
                    if vm == "canon":
                        cands |= {"EOS" + c for c in list(cands)}
                    own = {c for c in cands if c in names and len(c) > 1}
                    if own and not any(mm in names[c] for c in own):
                        R.bad("own-name", "%s|%s" % (short, a), "%r names the camera %s of %s but leads to number %s (%s)" % (a, sorted(own)[0], vn, mm, ",".join(n for n, (y, _) in mods[vm].items() if y == mm)), where)
                    elif own:
                        R.ok("own-name")
    for x, (short, where) in sorted(matrices.items()):
        R.check(x in identified, "matrix-reachable", "%s|%s|%s" % (short, x[0], x[1]), "%s has a matrix for camera %s of %s, which no model table identifies" % (short, x[1], vnum.get(x[0])), where)
    for m, ids in sorted(mods.items()):
        if m == "vendor" or m not in {n.lower() for n in vnum.values()}:
            continue
        vv = vend[m.upper()][0]
        for n, (v, c) in sorted(ids.items()):
            if n.startswith("_") or n == "UNKNOWN" or n.endswith("GENERIC") or (m, n) in RESERVED:
                continue
            R.check((vv, v) in identified, "identifiable", "%s|%s" % (m, n), "no table identifies the camera %s::%s (number %s)" % (m, n, v), "%s:%s" % (c["file"], c["line"]))
    R.floor("identifiable", 700)
    R.floor("unique", 700)
    R.floor("header", 500)
    R.floor("declared", 1500)
    R.floor("own-vendor", 1200)
    R.floor("one-entry", 3000)
    R.floor("own-name", 400)
    R.floor("one-number", 200)
    R.floor("matrix-reachable", 500)
    R.note("%d identities in %d tables" % (ncam, len(T)))
