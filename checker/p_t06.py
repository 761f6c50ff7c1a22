"""T06: the numbers, names and directories of tags agree."""
import re
import spec_tags as S
import tables
from expr import X, last
from spec import Spec, TOP

DIR = "libopenraw::tiff::dir::Dir"
ENTRY = "libopenraw::tiff::entry::Entry"
IFDTYPE = "libopenraw::tiff::IfdType"


def run(F, R):
    R.rule("tag-number", "every constant named for a tag has the number of that tag")
    R.rule("tag-name", "the tables that name tags give each number its published name")
    R.rule("dir-names", "a directory is opened with the table of names of the kind of directory its identifier says it is")
    R.rule("sub-dir", "a sub-directory is opened from the tag that points to it")
    R.rule("mnote-layout", "a maker note recognised by its signature gets the identifier, the start and the base of that format")
    R.rule("entry-name", "the metadata iterator puts the entries of a directory in the namespace of that directory, each under its own tag")
    R.rule("made-entry", "entries made up from other formats hold what their tag says, in the type they declare")
    numbers(F, R)
    T = tables.all_tables(F)
    kinds = names(F, R, T)
    dirs(F, R, T, kinds)
    mnotes(F, R)
    entry_names(F, R)
    made(F, R, T)
    R.floor("tag-number", 250)
    R.floor("tag-name", 1500)
    R.floor("dir-names", 15)


# ---------------------------------------------------------------- numbers

def val(c):
    v = c.get("v")
    if isinstance(v, list) and len(v) == 1:
        v = v[0]
    return v if isinstance(v, int) else None


def numbers(F, R):
    for k, c in sorted(F.consts.items()):
        n = last(k)
        if k.startswith("libopenraw::tiff::exif::"):
            want = S.NUMBERS.get(n.lstrip("_"))
        elif k.startswith("libopenraw::fujifilm::"):
            want = S.RAF.get(n)
        else:
            want = None
        if want is None or val(c) is None or F.tys(c["t"]) not in ("u16", "u32"):
            continue
        R.check(val(c) == want, "tag-number", n, "%s is 0x%x, the tag it is named for is 0x%x" % (n, val(c), want), "%s:%s" % (c["file"], c["line"]))
    for path, a in sorted(F.adts.items()):
        if a["kind"] != "enum" or "ciff" not in path or len(a["v"]) < 40:
            continue
        for v in a["v"]:
            want = S.CIFF.get(v["n"])
            if want is None or v.get("discr") is None:
                continue
            R.check(int(v["discr"]) == want, "tag-number", "ciff|" + v["n"], "the CIFF record %s is 0x%04x, not 0x%04x" % (v["n"], want, int(v["discr"])), path)


# ---------------------------------------------------------------- names

def names(F, R, T):
    """kind of every table of names, by what is in it"""
    kinds = {}
    sets = {k: set(v.items()) for k, v in S.NAMES.items()}
    sets["RAF"] = set(S.RAF_NAMES.items())
    best = {}
    for k, t in sorted(T.items()):
        p = t.pairs
        if not p:
            continue
        q = {}
        for n, v in p:
            if tables_tup(v):
                v = v[1][0]
            if isinstance(n, int) and isinstance(v, str):
                q[n] = v
        if len(q) < 3:
            continue
        it = set(q.items())
        score = sorted(((len(it & s) / max(1, len(it | s)), kind) for kind, s in sets.items()), reverse=True)
        if score[0][0] < 0.3:
            continue
        kind = score[0][1]
        kinds[k] = kind
        if kind in best and best[kind][0] >= score[0][0]:
            continue
        best[kind] = (score[0][0], k, q, t)
    for kind, (sc, k, q, t) in sorted(best.items()):
        std = S.NAMES.get(kind) or S.RAF_NAMES
        for n, want in sorted(std.items()):
            R.check(q.get(n) == want, "tag-name", "%s|0x%04x" % (kind, n), "%s calls the tag 0x%04x %s, its name is %s" % (last(k), n, repr(q[n]) if n in q else "nothing", want), "%s:%s" % (t.file, t.line))
    for kind in sorted(set(sets) - set(best)):
        R.note("no table with the names of %s" % kind)
    R.note("%d tables of names recognised by what they hold" % len(kinds))
    return kinds


def tables_tup(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "tup" and v[1]


# ---------------------------------------------------------------- directories

def text(e):
    """A constant byte or text string."""
    if not (isinstance(e, tuple) and e[0] == "c"):
        return None
    v = e[1]
    if isinstance(v, str):
        m = re.match(r"^\[(\d+(?:, \d+)*)\]$", v)
        if m:
            return bytes(int(x) & 255 for x in m.group(1).split(", "))
        return v
    return None


def ident(e):
    v = text(e)
    if isinstance(v, bytes):
        v = v.split(b"\0")[0].decode("latin1")
    return v


def option(e):
    """('none',), ('some', x) or None when unknown"""
    if isinstance(e, tuple) and e[0] == "agg":
        if e[1].endswith("Option::None"):
            return ("none",)
        if e[1].endswith("Option::Some"):
            return ("some", e[3][0])
    return None


def static_of(e):
    while isinstance(e, tuple):
        if e[0] == "c":
            return e[1][1] if isinstance(e[1], tuple) and e[1][0] == "static" else None
        if e[0] in ("call", "call@") and len(e) >= 3 and last(str(e[1] if e[0] == "call" else e[2])) in ("deref", "as_ref", "borrow", "clone", "force", "get"):
            e = e[-1]
            continue
        return None
    return None


def looked_up(T, e):
    """An entry of a constant table."""
    if isinstance(e, tuple) and e[0] == "call" and last(e[1]) == "get" and len(e) == 4 and e[3][0] == "c":
        s = static_of(e[2])
        t = T.get(s)
        if t is not None and t.pairs:
            for k, v in t.pairs:
                if k == e[3][1]:
                    return v
    return None


def root(k):
    return k.split("::{closure")[0]


def dirs(F, R, T, kinds):
    def is_names(t):
        s = F.tys(t)
        return "HashMap<u16, &" in s and "Vec<" not in s and "(" not in s

    for bid, b in sorted(F.bodies.items()):
        x = None
        for bb, t in b.calls():
            r = t.get("res") or t.get("f") or ""
            f = F.fns.get(r)
            if not f or "in" not in f or not any(is_names(i) for i in f["in"]):
                continue
            x = x or X.of(F, b)
            tab = id_ = typ = tag = None
            for i, a in zip(f["in"], t["a"]):
                e = x.op(a)
                ty = F.tys(i)
                if is_names(i):
                    o = option(e)
                    if o == ("none",):
                        tab = "EXIF"
                    else:
                        st = static_of(o[1] if o else e)
                        tab = kinds.get(st)
                        if st and tab is None and st in T and not (T[st].pairs or []):
                            tab = "empty"
                elif ty == "u16" and isinstance(e, tuple) and e[0] == "c" and isinstance(e[1], int):
                    tag = e[1]
                elif F.types[i].get("d") == IFDTYPE and isinstance(e, tuple) and e[0] == "agg":
                    typ = last(e[1])
                elif "str" in ty or "[u8]" in ty:
                    o = option(e)
                    id_ = ident(o[1]) if o and o[0] == "some" else ident(e)
                    if id_ is None:
                        v = looked_up(T, e)
                        id_ = v if isinstance(v, str) else None
            where = b.where(t["l"])
            key = "%s|%s" % (root(b.nice), id_ or tab or "?")
            if id_ in S.TABLE_OF_ID and tab is not None:
                R.check(tab == S.TABLE_OF_ID[id_], "dir-names", key + "|table", "the directory %s is read with the names of %s, not of %s" % (id_, tab, S.TABLE_OF_ID[id_]), where)
            elif id_ is None and typ is None and tab is None:
                R.note("not judged: %s" % where)
            if tag is not None:
                want = S.TAG_OF_ID.get(id_) or S.TAG_OF_TABLE.get(tab)
                if want is not None:
                    R.check(tag == want, "sub-dir", key + "|tag", "the directory %s is at the tag 0x%04x, not 0x%04x" % (id_ or tab, want, tag), where)
                    if id_ and tab in S.TAG_OF_TABLE:
                        R.check(S.TAG_OF_TABLE[tab] == tag, "sub-dir", key + "|names", "the directory at the tag 0x%04x is read with the names of %s" % (tag, tab), where)
            if typ in ("Exif", "GpsInfo") and id_ is not None:
                R.check(id_ == S.DIRID[typ], "dir-names", key + "|type|" + typ, "a directory of type %s is identified as %s" % (typ, id_), where)
            if typ == "GpsInfo" and tab is not None:
                R.check(tab == "GPSINFO", "dir-names", key + "|type-table", "the GPS directory is read with the names of %s" % tab, where)
            if typ == "Exif" and tab is not None:
                R.check(tab == "EXIF", "dir-names", key + "|type-table", "the Exif directory is read with the names of %s" % tab, where)
            if typ in S.TAG_OF_TYPE:
                got = tags_used(F, root(bid))
                if got:
                    R.check(S.TAG_OF_TYPE[typ] in got, "sub-dir", key + "|pointer", "the %s directory is looked for at %s, its pointer is the tag 0x%04x"
                            % (typ, ", ".join("0x%04x" % g for g in sorted(got)), S.TAG_OF_TYPE[typ]), where)
        # lists of what the directories of a file are
        for bb, i, s in b.stmts():
            if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "tuple" and len(s["r"]["ops"]) == 2:
                o = s["r"]["ops"]
                if F.types[b.op_ty(o[0])].get("d") != IFDTYPE or "HashMap<u16" not in F.tys(b.op_ty(o[1])):
                    continue
                x = x or X.of(F, b)
                op = option(x.op(o[1]))
                e0 = x.op(o[0])
                if not op or not (isinstance(e0, tuple) and e0[0] == "agg"):
                    continue
                typ = last(e0[1])
                tab = "EXIF" if op == ("none",) else kinds.get(static_of(op[1]))
                if tab is None:
                    continue
                pan = b.file.endswith("panasonic.rs") and typ == "Main"
                want = "RAW_PANASONIC" if pan else "EXIF"
                R.check(tab == want, "dir-names", "%s|%s" % (root(b.nice), typ), "a directory of type %s is read with the names of %s, not of %s" % (typ, tab, want), b.where(s["l"]))
    # identifiers made from the type
    a = F.adts.get(IFDTYPE)
    for bid, b in sorted(F.bodies.items()):
        if b.kind != "fn" or b.argc != 1 or a is None or F.types[b.lty(1)].get("d") != IFDTYPE or "str" not in F.tys(b.lty(0)):
            continue
        got = {}
        for i, v in enumerate(a["v"]):
            r = Spec(F).run(bid, (("adt", IFDTYPE, i, ()),))[0]
            if isinstance(r, tuple) and r[0] == "adt" and r[1].endswith("Option"):
                r = r[3][0] if r[3] else None
            if isinstance(r, tuple) and r[0] == "str":
                got[v["n"]] = r[1]
        best = max((S.DIRID, S.NAMESPACE), key=lambda m: sum(1 for k in got if m.get(k) == got[k]))
        if sum(1 for k in got if best.get(k) == got[k]) * 2 <= len(got):
            continue
        for k in got:
            if k in best:
                R.check(got[k] == best[k], "dir-names", "%s|%s" % (b.nice, k), "a directory of type %s is called %s, not %s" % (k, got[k], best[k]), b.where())


def tags_used(F, rt):
    """The tags looked up by a function and the closures in it."""
    out = set()
    for k, b in F.bodies.items():
        if root(k) != rt:
            continue
        x = X.of(F, b)
        for bb, t in b.calls():
            r = t.get("res") or t.get("f") or ""
            f = F.fns.get(r)
            if not f or "in" not in f:
                continue
            for i, a in zip(f["in"], t["a"]):
                if F.tys(i) == "u16":
                    e = x.op(a)
                    if isinstance(e, tuple) and e[0] == "c" and isinstance(e[1], int):
                        out.add(e[1])
    return out


# ---------------------------------------------------------------- maker notes

def known_bytes(facts):
    """position -> byte known of the data read, from the comparisons that hold; and the file types that hold"""
    by, types = {}, set()
    for f in facts:
        if f[0] == "true" and isinstance(f[1], tuple) and f[1][0] in ("call", "call@", "pure"):
            c = f[1]
            n = last(str(c[2] if c[0] == "call@" else c[1]))
            if n == "starts_with":
                v = text(c[-1])
                if isinstance(v, str):
                    v = v.encode("latin1")
                if v is not None:
                    for i, y in enumerate(v):
                        by[i] = y
            continue
        if f[0] != "Eq" or len(f) != 3:
            continue
        a, c = f[1], f[2]
        if isinstance(c, tuple) and isinstance(a, tuple) and a[0] == "c":
            a, c = c, a
        if not isinstance(a, tuple) or not isinstance(c, tuple):
            continue
        if a[0] == "discr" and c[0] == "discr":
            for y in (a, c):
                if isinstance(y[1], tuple) and y[1][0] == "agg" and "libopenraw::Type::" in y[1][1]:
                    types.add(last(y[1][1]))
        if a[0] == "call" and last(a[1]) == "index" and len(a) == 4 and isinstance(a[3], tuple) and a[3][0] == "agg" and c[0] == "c":
            v = text(c)
            ops = a[3][3]
            lo = None
            if a[3][1].endswith("Range::Range") or a[3][1].endswith("RangeFrom::RangeFrom") or "RangeInclusive" in a[3][1]:
                lo = ops[0][1] if ops and ops[0][0] == "c" else None
            elif a[3][1].endswith("RangeTo::RangeTo"):
                lo = 0
            if isinstance(v, str):
                v = v.encode("latin1")
            if isinstance(lo, int) and v is not None:
                for i, y in enumerate(v):
                    by[lo + i] = y
        elif a[0] == "idx" and a[2][0] == "c" and isinstance(a[2][1], int) and c[0] == "c" and isinstance(c[1], int):
            by[a[2][1]] = c[1]
    return by, types


def plus(e):
    """(k) for parameter + k, ('const', k) for a constant"""
    if isinstance(e, tuple):
        if e[0] == "c" and isinstance(e[1], int):
            return ("const", e[1])
        if e[0] == "p":
            return (e, 0)
        if e[0] == "bin" and e[1] == "Add":
            for a, c in ((e[2], e[3]), (e[3], e[2])):
                if isinstance(a, tuple) and a[0] == "p" and isinstance(c, tuple) and c[0] == "c":
                    return (a, c[1])
    return None


def row_bytes(r):
    return {p + i: y for p, s in r[0].items() for i, y in enumerate(s)}


VENDOR_OF_TYPE = {"Arw": ("Exif.Sony",), "Nef": ("Exif.Nikon",), "Rw2": ("Exif.Panasonic", "Exif.Leica"), "Dng": ("Exif.Leica5",)}


def mnotes(F, R):
    n = judged = 0
    for bid, b in sorted(F.bodies.items()):
        x = None
        for bb, t in b.calls():
            r = t.get("res") or t.get("f") or ""
            f = F.fns.get(r)
            if not f or "in" not in f:
                continue
            u32 = [i for i, ty in enumerate(f["in"]) if F.tys(ty) == "u32"]
            names_ = [i for i, ty in enumerate(f["in"]) if "HashMap<u16, &" in F.tys(ty)]
            bytes_ = [i for i, ty in enumerate(f["in"]) if F.tys(ty).replace("'static ", "") == "&[u8]"]
            if len(u32) != 2 or len(names_) != 1 or len(bytes_) != 1:
                continue
            x = x or X.of(F, b)
            n += 1
            id_ = ident(x.op(t["a"][bytes_[0]]))
            if id_ is None:
                R.note("not judged: the maker note made at %s" % b.where(t["l"]))
                continue
            where = b.where(t["l"])
            facts = x.facts(bb)
            by, types = known_bytes(facts)
            key = "%s|%s" % (root(b.nice), id_)
            if id_:
                R.check(id_.startswith("Exif."), "mnote-layout", key + "|prefix", "the identifier %s of a maker note doesn't start with Exif." % id_, where)
            start, base = plus(x.op(t["a"][u32[0]])), plus(x.op(t["a"][u32[1]]))
            st = start[1] if start and start[0] != "const" else None
            if base is None:
                ba = "?"
            elif base[0] == "const":
                ba = None if base[1] == 0 else "?"
            else:
                ba = base[1] if start is None or start[0] == "const" or start[0] == base[0] else "?"
            rows = [row for row in S.MNOTE if all(by.get(p) == y for p, y in row_bytes(row).items())]
            rows = [row for row in rows if not any(len(row_bytes(o)) > len(row_bytes(row)) for o in rows)]
            mine = [row for row in S.MNOTE if id_ in row[1]]

            def fits(row):
                return (st is None or row[2] == st) and (ba == "?" or row[3] == "?" or row[3] == ba)
            pos = ",".join("%d:%02x" % y for y in sorted(by.items())) if by else "nothing"
            if rows:
                judged += 1
                row = rows[0]
                sig = b"".join(row[0].values())
                generic = id_ in ("Exif.NikonX",)
                R.check(id_ in row[1] or generic, "mnote-layout", key + "|sig", "a maker note that starts with %r is identified as %s" % (sig, id_), where)
                if id_ in row[1]:
                    R.check(fits(row), "mnote-layout", key + "|layout|%s" % sig.decode("latin1").encode("unicode_escape").decode(),
                            "a maker note that starts with %r has its directory at %s and values from %s, not at %s and from %s"
                            % (sig, row[2], "the start of the file" if row[3] is None else row[3], "?" if st is None else st, "the start of the file" if ba is None else ba), where)
            else:
                lay = S.MNOTE_LAYOUT.get(id_)
                if lay:
                    judged += 1
                    R.check(any((st is None or a == st) and (ba == "?" or c == "?" or c == ba) for a, c in lay), "mnote-layout", key + "|layout",
                            "no maker note %s has its directory at %s with values from %s" % (id_, st, "the start of the file" if ba is None else ba), where)
                if mine and by and len(mine) == len([1 for row in mine if any(by.get(p, y) != y for p, y in row_bytes(row).items())]) and not (id_ in S.MNOTE_LAYOUT and len(S.MNOTE_LAYOUT[id_]) > len(mine)):
                    R.bad("mnote-layout", key + "|sig", "a maker note with %s is identified as %s" % (pos, id_), where)
            if len(types) == 1:
                ty = next(iter(types))
                if ty in VENDOR_OF_TYPE:
                    R.check(any(id_.startswith(v) for v in VENDOR_OF_TYPE[ty]), "mnote-layout", key + "|type|" + ty, "the maker note of a %s file is identified as %s" % (ty, id_), where)
            if id_ == "Exif.Fujifilm":
                en = [x.op(t["a"][i]) for i, ty in enumerate(f["in"]) if F.types[ty].get("d", "").endswith("Endian")]
                for e in en:
                    if isinstance(e, tuple) and e[0] == "agg":
                        R.check(last(e[1]) == "Little", "mnote-layout", key + "|endian", "the Fujifilm maker note is always little endian", where)
    R.note("%d places make a maker note, %d of them with a known format" % (n, judged))


# ---------------------------------------------------------------- the iterator

def entry_names(F, R):
    da, ta = F.adts.get(DIR), F.adts.get(IFDTYPE)
    if not da or not ta:
        R.note("no tiff::Dir or tiff::IfdType: entry names not judged")
        return
    dfs = [f["n"] for f in da["v"][0]["f"]]
    if "type_" not in dfs:
        tf = [i for i, f in enumerate(da["v"][0]["f"]) if f.get("t") is not None and F.types[f["t"]].get("d") == IFDTYPE]
        if len(tf) != 1:
            return
        ti = tf[0]
    else:
        ti = dfs.index("type_")
    known = set(S.NAMESPACE.values())
    for im in F.impls:
        if im["trait"] != "core::iter::traits::iterator::Iterator":
            continue
        st = F.types[im["self"]]
        a = F.adts.get(st.get("d"))
        if not a or not a["local"] or a["kind"] != "struct":
            continue
        df = [i for i, f in enumerate(a["v"][0]["f"]) if f.get("t") is not None and peel(F, f["t"]).get("d") == DIR]
        if len(df) != 1:
            continue
        for n, item, ti_ in im["items"]:
            if n != "next" or item not in F.bodies:
                continue
            b = F.bodies[item]
            for vi, v in enumerate(ta["v"]):
                want = S.NAMESPACE.get(v["n"])
                seen = set()

                def hook(sp, hb, bb, t, g, args, te, tenv):
                    if "fmt" in g or last(g) in ("push_str", "to_string", "from", "to_owned", "join", "concat"):
                        for y in args:
                            if isinstance(y, tuple) and y[0] == "str" and y[1]:
                                seen.add(y[1])
                    return None
                d = ("obj", DIR, ((ti, ("adt", IFDTYPE, vi, ())),))
                Spec(F, hook).run(item, (("obj", st["d"], ((df[0], d),)),))
                got = {y for y in seen if y in known or want not in seen}
                if want is None or not seen:
                    R.note("namespace of %s not determined" % v["n"])
                    continue
                R.check(want in seen and not (got & known) - {want}, "entry-name", "%s|%s" % (b.nice, v["n"]), "the entries of a directory of type %s are published as %s, not under %s"
                        % (v["n"], ", ".join(sorted(got)), want), b.where())
            # the key
            fe = F.adts.get(ENTRY)
            for k, cb in sorted(F.bodies.items()):
                if root(k) != item:
                    continue
                x = X.of(F, cb)
                for bb, t in cb.calls():
                    r = t.get("res") or t.get("f") or ""
                    if last(r) == "get" and "HashMap" in F.tys(cb.op_ty(t["a"][0])) and len(t["a"]) == 2:
                        e = x.op(t["a"][1])
                        f = field_name(F, cb, e, fe)
                        if f is not None:
                            R.check(f == "id", "entry-name", "%s|key" % b.nice, "an entry is named by its %s, not its tag" % f, cb.where(t["l"]))


def field_name(F, b, e, fe):
    """The Entry field an expression is, if it is one."""
    while isinstance(e, tuple) and e[0] in ("cast",):
        e = e[2]
    if isinstance(e, tuple) and e[0] == "f" and isinstance(e[1], tuple) and e[1][0] == "f" and e[1][2] == 1 and fe:
        fs = fe["v"][0]["f"]
        return fs[e[2]]["n"] if e[2] < len(fs) else None
    return None


def peel(F, t):
    x = F.types[t]
    while x["k"] in ("ref", "ptr"):
        x = F.types[x["t"]]
    return x


# ---------------------------------------------------------------- entries made up

SETTING_TAG = {1: 0xa40c, 4: 0x9209, 17: 0x9207, 20: 0x8822}
TAG_SETTING = {v: k for k, v in SETTING_TAG.items()}
# Canon setting -> Exif value, where both sides name the same thing
VALUES = {17: {1: 3, 2: 1, 3: 5, 4: 6, 5: 2}, 20: {1: 2, 2: 4, 3: 3, 4: 1, 5: 5}, 4: {2: 1}}
WIDTH = {"write_u16": 3, "write_u32": 4}


def settings(e, out):
    """Indices of the camera settings in an expression."""
    if isinstance(e, tuple):
        if e and e[0] == "idx" and isinstance(e[2], tuple) and e[2][0] == "c" and "camera_settings" in repr(e[1]):
            out.add(e[2][1])
        for y in e:
            settings(y, out)


def made(F, R, T):
    # what CIFF records are published as
    for k, t in sorted(T.items()):
        if "ciff" not in k or not t.pairs:
            continue
        for a, c in t.pairs:
            if not (tables.is_adt(a) and tables.is_adt(c)):
                continue
            want = S.CIFF_EXIF.get(a[3])
            num = [y for y in c[4] if isinstance(y, int)]
            typ = [y[3] for y in c[4] if tables.is_adt(y, "IfdType")]
            if want and len(num) == 1:
                R.check(num[0] == want[0], "made-entry", "ciff|%s|tag" % a[3], "the CIFF record %s is published as the tag 0x%04x, not 0x%04x" % (a[3], num[0], want[0]), "%s:%s" % (t.file, t.line))
            if want and len(typ) == 1:
                R.check(typ[0] == want[1], "made-entry", "ciff|%s|dir" % a[3], "the CIFF record %s is published in the %s directory, not %s" % (a[3], typ[0], want[1]), "%s:%s" % (t.file, t.line))
    ea = F.adts.get(ENTRY)
    if not ea:
        return
    fs = [f["n"] for f in ea["v"][0]["f"]]
    makers = {}
    for k, f in F.fns.items():
        if "out" in f and F.types[f["out"]].get("d") == ENTRY and "in" in f and f["in"] and F.tys(f["in"][0]) == "u16":
            makers[k] = f
    for bid, b in sorted(F.bodies.items()):
        x = None
        for bb, t in b.calls():
            r = t.get("res") or t.get("f") or ""
            # keyed by its own tag
            if last(r) == "insert" and len(t["a"]) == 3 and F.types[b.op_ty(t["a"][2])].get("d") == ENTRY:
                x = x or X.of(F, b)
                key, e = x.op(t["a"][1]), x.op(t["a"][2])
                own = made_tag(e, makers, fs)
                if own is not None and isinstance(key, tuple) and key[0] == "c" and own[0] == "c":
                    R.check(key[1] == own[1], "made-entry", "%s|key|0x%04x" % (root(b.nice), key[1]), "an entry for the tag 0x%04x is kept under 0x%04x" % (own[1], key[1]), b.where(t["l"]))
            if r not in makers:
                continue
            x = x or X.of(F, b)
            tag = x.op(t["a"][0])
            tag = tag[1] if isinstance(tag, tuple) and tag[0] == "c" and isinstance(tag[1], int) else None
            if tag:
                asked = set()
                for a in t["a"][1:]:
                    tags_in(F, x.op(a), asked)
                R.check(not asked or tag in asked, "made-entry", "%s|0x%04x|from" % (root(b.nice), tag), "an entry for the tag 0x%04x is made from what was found for %s"
                        % (tag, ", ".join("0x%04x" % y for y in sorted(asked))), b.where(t["l"]))
            ty = None
            for a, i in zip(t["a"][1:], makers[r]["in"][1:]):
                if F.tys(i) == "i16":
                    e = x.op(a)
                    while isinstance(e, tuple) and e[0] == "cast":
                        e = e[2]
                    ty = const_of(F, e)
            w = written(F, b, x, bb, t)
            if w is None:
                continue
            wbb, wt, wn = w
            nm = "%s|%s" % (root(b.nice), "0x%04x" % tag if tag is not None else "tag")
            if ty in (3, 4) and len(makers[r]["in"]) == 4:
                R.check(ty == WIDTH[wn], "made-entry", nm + "|type", "an entry declared as %s holds a value written with %s" % ("Short" if ty == 3 else "Long", wn), b.where(t["l"]))
            fn = field_of(F, b, wt["a"][-1])
            if fn is not None and tag in NOT_IN:
                R.check(not any(y in fn for y in NOT_IN[tag]), "made-entry", nm + "|" + fn, "an entry for the tag 0x%04x holds %s" % (tag, fn), b.where(wt["l"]))
            if tag in TAG_SETTING:
                setting_values(F, R, b, x, wbb, wt, tag, nm)


# what the field written for a tag may not be called
NOT_IN = {0x100: ("height", "length", "depth", "bpp", "rotation", "aspect"), 0x101: ("width", "depth", "bpp", "rotation", "aspect"), 0x102: ("width", "height", "rotation", "aspect"),
          0x112: ("width", "height", "depth", "aspect")}


def field_of(F, b, o, depth=0):
    """The name of the field a value is read from."""
    if o["k"] not in ("copy", "move") or depth > 4:
        return None
    l, proj = o["p"][0], o["p"][1]
    if proj and not isinstance(proj[-1], str) and proj[-1][0] == "f":
        t = b.place_ty((l, proj[:-1]))
        a = F.adts.get(F.types[t].get("d")) if t is not None else None
        if a and a["kind"] == "struct" and a["local"] and proj[-1][1] < len(a["v"][0]["f"]):
            return a["v"][0]["f"][proj[-1][1]]["n"]
        return None
    if proj:
        return None
    ds = b.defs.get(l, [])
    if len(ds) == 1 and isinstance(ds[0][2], dict) and ds[0][2].get("k") in ("use", "cast"):
        return field_of(F, b, ds[0][2]["o"], depth + 1)
    return None


def tags_in(F, e, out):
    """Tags a value was asked for by."""
    if isinstance(e, tuple):
        if len(e) > 3 and e[0] == "call@" and e[2] in F.fns:
            f = F.fns[e[2]]
            for i, a in zip(f.get("in", []), e[3:]):
                if F.tys(i) == "u16" and isinstance(a, tuple) and a[0] == "c" and isinstance(a[1], int) and a[1] >= 0x100:
                    out.add(a[1])
        for y in e:
            tags_in(F, y, out)


def const_of(F, e):
    if isinstance(e, tuple):
        if e[0] == "c" and isinstance(e[1], int):
            return e[1]
        if e[0] == "discr":
            e = e[1]
        if e[0] == "agg":
            a = F.adts.get(e[1].rsplit("::", 1)[0])
            if a and a["kind"] == "enum":
                for i, v in enumerate(a["v"]):
                    if v["n"] == last(e[1]):
                        return int(v["discr"]) if v.get("discr") is not None else i
    return None


def made_tag(e, makers, fs):
    if isinstance(e, tuple) and e[0] == "agg" and e[1].startswith(ENTRY + "::") and "id" in fs and len(e[3]) == len(fs):
        return e[3][fs.index("id")]
    if isinstance(e, tuple) and e[0] == "call@" and e[2] in makers and len(e) > 3:
        return e[3]
    if isinstance(e, tuple) and e[0] in ("call", "pure") and e[1] in makers and len(e) > 2:
        return e[2]
    return None


def written(F, b, x, bb, t):
    """The last write of an integer into the buffer an entry is made from, on the way to it."""
    buf = None
    for a in t["a"][1:]:
        if a["k"] in ("copy", "move") and F.types[b.op_ty(a)]["k"] == "array":
            buf = a["p"][0]
    if buf is None:
        return None
    seen_l = {buf}
    # copies of the buffer
    for _ in range(3):
        for l in list(seen_l):
            for _, _, rv in b.defs.get(l, []):
                if isinstance(rv, dict) and rv.get("k") == "use" and rv["o"]["k"] in ("copy", "move") and not rv["o"]["p"][1]:
                    seen_l.add(rv["o"]["p"][0])
    preds = {}
    for m in b.reach:
        tt = b.blocks[m]["t"]
        for y in succ(tt):
            preds.setdefault(y, []).append(m)
    cur = bb
    for _ in range(60):
        ps = [p for p in preds.get(cur, []) if not b.blocks[p].get("cleanup")]
        if len(ps) != 1:
            return None
        cur = ps[0]
        tt = b.blocks[cur]["t"]
        if tt["k"] != "call":
            continue
        n = last(tt.get("res") or tt.get("f") or "")
        m = next((w for w in WIDTH if n.endswith(w)), None)
        if m and any(touches(b, a, seen_l) for a in tt["a"]):
            return cur, tt, m
        if any(touches(b, a, seen_l) for a in tt["a"]) and n not in ("deref", "deref_mut", "index", "index_mut"):
            return None
    return None


def succ(t):
    k = t["k"]
    if k in ("goto", "drop", "assert", "call"):
        return [t["t"]] if t.get("t") is not None else []
    if k == "switch":
        return [y[1] for y in t["v"]] + [t["o"]]
    return []


def touches(b, a, ls, depth=0):
    if a["k"] not in ("copy", "move"):
        return False
    l = a["p"][0]
    if l in ls:
        return True
    if depth > 4:
        return False
    for _, _, rv in b.defs.get(l, []):
        if isinstance(rv, dict):
            if rv.get("k") in ("ref", "rawptr") and rv["p"][0] in ls:
                return True
            if rv.get("k") in ("ref", "rawptr") and touches(b, {"k": "copy", "p": (rv["p"][0], [])}, ls, depth + 1):
                return True
            if rv.get("k") in ("use", "cast") and touches(b, rv["o"], ls, depth + 1):
                return True
    return False


def setting_values(F, R, b, x, wbb, wt, tag, nm):
    v = wt["a"][-1]
    out = set()
    e = x.op(v)
    settings(e, out)
    defs = []
    if not out and v["k"] in ("copy", "move"):
        l = v["p"][0]
        for _ in range(4):
            ds = b.defs.get(l, [])
            if len(ds) == 1 and isinstance(ds[0][2], dict) and ds[0][2].get("k") == "use" and ds[0][2]["o"]["k"] in ("copy", "move") and not ds[0][2]["o"]["p"][1]:
                l = ds[0][2]["o"]["p"][0]
            else:
                break
        defs = b.defs.get(l, [])
        for dbb, _, rv in defs:
            for f in x.facts(dbb):
                settings(f, out)
    if not out:
        for f in x.facts(wbb):
            settings(f, out)
    if len(out) != 1:
        return
    i = next(iter(out))
    if i not in SETTING_TAG:
        R.bad("made-entry", nm + "|setting", "the tag 0x%04x is made from the camera setting %d, not %d" % (tag, i, TAG_SETTING[tag]), b.where(wt["l"]))
        return
    R.check(SETTING_TAG[i] == tag, "made-entry", nm + "|setting", "the tag 0x%04x is made from the camera setting %d, not %d" % (tag, i, TAG_SETTING[tag]), b.where(wt["l"]))
    for dbb, _, rv in defs:
        if not (isinstance(rv, dict) and rv.get("k") == "use"):
            continue
        c = const_of(F, x.op(rv["o"]))
        if c is None:
            continue
        for f in x.facts(dbb):
            if f[0] == "Eq" and isinstance(f[1], tuple) and f[1][0] == "idx" and f[1][2] == ("c", i) and isinstance(f[2], tuple) and f[2][0] == "c":
                want = VALUES.get(i, {}).get(f[2][1])
                if want is not None:
                    R.check(c == want, "made-entry", "%s|value|%s" % (nm, f[2][1]), "the camera setting %d with value %s is published as %d, not %d" % (i, f[2][1], c, want), b.where(wt["l"]))
