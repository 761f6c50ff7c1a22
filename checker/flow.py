"""Where image attributes go: a forward, interprocedural, flow sensitive label analysis.

Every number may carry labels that say which attribute of the image it is: ("G", axis, nature)
for geometry - axis H (widths, columns, left, x) or V (heights, rows, top, y), nature coord,
ext (extent), end or ? - and ("A", name) for the others (black, white, bpc, cc, off, len).
Labels come from the names of struct fields, parameters and accessors of this crate, and from
the tags values are read with; they are followed through bindings, tuples, arrays, options,
conversions, arithmetic, closures and calls (each function is analysed again for every
combination of labels it is called with).  A label that reaches a place named for another
attribute is a conflict.  An unlabelled value never conflicts with anything.
"""
import re
from mir import pl
from expr import last

H, V = "H", "V"
EXT, COORD, END, ANY = "ext", "coord", "end", "?"
N = ("N",)

MAXCTX = 40
MAXDEPTH = 14

WIDTH = re.compile(r"(^|_)(width|cols|columns)$")
HEIGHT = re.compile(r"(^|_)(height|rows)$")
NUMERIC = re.compile(r"\b(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|isize|f32|f64)\b")


def attr_of(name, group):
    """The attribute a declared name stands for, or None.  `group`: names declared beside it."""
    if not name:
        return None
    n = name.lower()
    if WIDTH.search(n) or (n == "w" and "h" in group):
        return ("G", H, EXT)
    if HEIGHT.search(n) or (n == "h" and "w" in group):
        return ("G", V, EXT)
    if n in ("x", "y") and "x" in group and "y" in group and "z" not in group:
        nat = COORD if any(WIDTH.search(g) for g in group) and any(HEIGHT.search(g) for g in group) else ANY
        return ("G", H if n == "x" else V, nat)
    if n in ("row", "col", "column") and "row" in group and ("col" in group or "column" in group):
        return ("G", V if n == "row" else H, COORD)
    if n in ("left", "right", "top", "bottom") and len({"left", "right", "top", "bottom"} & set(group)) >= 2:
        return ("G", H if n in ("left", "right") else V, COORD if n in ("left", "top") else END)
    if n in ("bpc", "bps", "bits_per_sample", "bits_per_component"):
        return ("A", "bpc")
    if n == "cc":
        return ("A", "cc")
    if n in ("black", "blacks", "black_level", "black_levels"):
        return ("A", "black")
    if n in ("white", "whites", "white_level", "white_levels"):
        return ("A", "white")
    m = re.match(r"^(.*_)?(offset|len|length|byte_count)$", n)
    if m:
        p = m.group(1) or ""
        if m.group(2) == "offset":
            if any(p + s in group for s in ("len", "length", "byte_count")):
                return ("A", "off")
        elif p + "offset" in group:
            return ("A", "len")
    return None


W_, H_ = ("G", H, EXT), ("G", V, EXT)
X_, Y_ = ("G", H, COORD), ("G", V, COORD)
R_, B_ = ("G", H, END), ("G", V, END)
OFF, LEN, BLACK, WHITE, BPC = ("A", "off"), ("A", "len"), ("A", "black"), ("A", "white"), ("A", "bpc")

# what the formats store under a tag (TIFF 6, DNG 1.6, and the maker note tables the code names)
TAGS = {
    "EXIF_TAG_IMAGE_WIDTH": W_, "EXIF_TAG_IMAGE_LENGTH": H_,
    "TIFF_TAG_TILE_WIDTH": W_, "TIFF_TAG_TILE_LENGTH": H_,
    "EXIF_TAG_PIXEL_X_DIMENSION": W_, "EXIF_TAG_PIXEL_Y_DIMENSION": H_,
    "FUJI_TAG_RAW_WIDTH": W_, "FUJI_TAG_RAW_HEIGHT": H_,
    "FUJI_TAG_RAW_OFFSET": OFF, "FUJI_TAG_RAW_BYTE_LEN": LEN,
    "EXIF_TAG_BITS_PER_SAMPLE": BPC, "RW2_TAG_IMAGE_BITSPERSAMPLE": BPC, "FUJI_TAG_RAW_BPS": BPC,
    "EXIF_TAG_STRIP_OFFSETS": OFF, "EXIF_TAG_STRIP_BYTE_COUNTS": LEN,
    "TIFF_TAG_TILE_OFFSETS": OFF, "TIFF_TAG_TILE_BYTECOUNTS": LEN,
    "EXIF_TAG_JPEG_INTERCHANGE_FORMAT": OFF, "EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH": LEN,
    "RW2_TAG_RAW_OFFSET": OFF,
    "MNOTE_CANON_RAW_DATA_OFFSET": OFF, "MNOTE_CANON_RAW_DATA_LENGTH": LEN,
    "MNOTE_MINOLTA_THUMBNAIL_OFFSET": OFF, "MNOTE_MINOLTA_THUMBNAIL_LENGTH": LEN,
    "MNOTE_PENTAX_PREVIEW_IMAGE_LENGTH": LEN, "MNOTE_NIKON_PREVIEWIFD_LENGTH": LEN,
    "ORF_TAG_CS_PREVIEW_IMAGE_LENGTH": LEN,
    "DNG_TAG_BLACK_LEVEL": BLACK, "DNG_TAG_WHITE_LEVEL": WHITE,
    "ARW_TAG_BLACK_LEVELS": BLACK, "MNOTE_EPSON_BLACK_LEVEL": BLACK, "ORF_TAG_IP_BLACK_LEVEL2": BLACK,
    "RW2_TAG_BLACK_LEVEL_RED": BLACK, "RW2_TAG_BLACK_LEVEL_GREEN": BLACK, "RW2_TAG_BLACK_LEVEL_BLUE": BLACK,
    "RW2_TAG_LINEARITY_LIMIT_RED": WHITE, "RW2_TAG_LINEARITY_LIMIT_GREEN": WHITE,
    "RW2_TAG_LINEARITY_LIMIT_BLUE": WHITE,
    "MNOTE_PENTAX_BLACK_POINT": BLACK, "MNOTE_PENTAX_WHITELEVEL": WHITE, "MNOTE_NIKON_BLACK_LEVEL": BLACK,
    "FUJI_TAG_RAW_BLACK_LEVEL_GRB": BLACK,
    "RW2_TAG_SENSOR_WIDTH": W_, "RW2_TAG_SENSOR_HEIGHT": H_,
    "RW2_TAG_SENSOR_TOPBORDER": Y_, "RW2_TAG_SENSOR_LEFTBORDER": X_,
    "RW2_TAG_SENSOR_BOTTOMBORDER": B_, "RW2_TAG_SENSOR_RIGHTBORDER": R_,
    "ORF_TAG_IP_CROP_LEFT": X_, "ORF_TAG_IP_CROP_TOP": Y_,
    "ORF_TAG_IP_CROP_WIDTH": W_, "ORF_TAG_IP_CROP_HEIGHT": H_,
    # several values under one tag
    "DNG_TAG_ACTIVE_AREA": [Y_, X_, B_, R_],
    "DNG_TAG_DEFAULT_CROP_ORIGIN": [X_, Y_], "DNG_TAG_DEFAULT_CROP_SIZE": [W_, H_],
    "ARW_TAG_SONY_CROP_TOP_LEFT": [Y_, X_], "ARW_TAG_SONY_CROP_SIZE": [W_, H_],
    "MNOTE_NIKON_CROP_AREA": [X_, Y_, W_, H_],
    "ORF_TAG_IP_ASPECT_FRAME": [X_, Y_, R_, B_],
    "MNOTE_PENTAX_IMAGEAREAOFFSET": [X_, Y_], "MNOTE_PENTAX_RAWIMAGESIZE": [W_, H_],
    "MNOTE_CANON_ASPECT_INFO": [None, W_, H_, X_, Y_],
    "MNOTE_CANON_SENSORINFO": [None, W_, H_, None, None, X_, Y_, R_, B_],
    "MNOTE_EPSON_SENSORAREA": [X_, Y_, W_, H_],
    # two 16 bits values in one number: (high half, low half)
    "TAG_SENSOR_DIMENSION": (H_, W_), "TAG_IMG_TOP_LEFT": (Y_, X_), "TAG_IMG_HEIGHT_WIDTH": (H_, W_),
    "TAG_CROP_TOP_LEFT": (Y_, X_), "TAG_CROP_HEIGHT_WIDTH": (H_, W_), "TAG_IMG_ASPECT_RATIO": (H_, W_),
}


def show(a):
    if a == MIXED:
        return "sum of a horizontal and a vertical value"
    if a[0] == "G":
        ax = "horizontal" if a[1] == H else "vertical"
        return {EXT: "width" if a[1] == H else "height", COORD: "%s position" % ax,
                END: "right edge" if a[1] == H else "bottom edge", ANY: "%s value" % ax}[a[2]]
    if a[0] == "A":
        return {"black": "black level", "white": "white level", "bpc": "bits per sample",
                "cc": "channel count", "off": "file offset", "len": "byte length"}[a[1]]
    return str(a)


PAIR = ("D",)
MIXED = ("M",)      # a horizontal plus or minus a vertical value


def pair_name(n):
    return bool(re.search(r"(^|_)(size|dimensions)$", n.lower()))


def conflict(a, want):
    """Does a value labelled `a` not belong where `want` is declared?"""
    if a == MIXED:
        return want[0] == "G"
    if a[0] not in "GA" or want[0] not in "GA":
        return False
    if a[0] == "G" and want[0] == "G":
        if a[1] != want[1]:
            return True
        if ANY in (a[2], want[2]) or a[2] == want[2]:
            return False
        return not (a[2] == EXT and want[2] == END)
    if a[0] == "A" and want[0] == "A":
        return a != want
    g, o = (a, want) if a[0] == "G" else (want, a)
    # a row length may well be a number of bytes
    return not (o[1] in ("len", "off") and g[2] in (EXT, ANY))


TRANSPARENT = ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow",
               "core::task::poll::Poll", "alloc::boxed::Box", "alloc::rc::Rc", "core::num::wrapping::Wrapping",
               "core::cell::Ref", "core::cell::RefMut", "core::cell::Cell", "core::cell::RefCell")
STD = ("core::", "alloc::", "std::")

IDENT = {"unwrap", "expect", "ok_or", "ok_or_else", "ok", "clone", "copied", "cloned", "as_ref", "as_deref",
         "as_mut", "borrow", "deref", "to_owned", "branch", "map_err", "inspect", "inspect_err", "to_vec",
         "as_slice", "abs", "filter", "unwrap_or_default", "into_boxed_slice", "iter", "into_iter", "rev",
         "by_ref", "step_by", "unsigned_abs", "flatten", "get_or_insert", "take", "round", "floor", "ceil",
         "black_box", "unwrap_unchecked", "next_power_of_two", "or_default", "trunc", "from_output", "get_mut",
         "to_le", "to_be", "from_le", "from_be", "take_while", "skip_while", "fuse", "peekable", "as_deref_mut"}
CONV = {"into", "from", "try_into", "try_from"}
BOTH = {"unwrap_or", "or"}
ARITH = {"saturating_sub": "Sub", "wrapping_sub": "Sub", "checked_sub": "Sub", "saturating_add": "Add",
         "wrapping_add": "Add", "checked_add": "Add", "saturating_mul": "Mul", "wrapping_mul": "Mul",
         "checked_mul": "Mul", "checked_div": "Div", "wrapping_div": "Div", "div_ceil": "Div", "abs_diff": "Sub",
         "sub": "Sub", "add": "Add", "mul": "Mul", "div": "Div", "rem": "Rem", "checked_rem": "Rem",
         "overflowing_sub": "Sub", "overflowing_add": "Add", "next_multiple_of": "Add", "checked_next_multiple_of": "Add"}
CLOSURES = {"map", "and_then", "map_or", "map_or_else", "unwrap_or_else", "or_else", "then", "is_some_and",
            "is_ok_and", "filter_map", "for_each", "flat_map", "inspect", "ok_or_else", "any", "all", "try_for_each"}
E0 = frozenset()


def prefix(v, p):
    """The part of value `v` below path element `p`."""
    return {k[1:]: s for k, s in v.items() if k and k[0] == p}


def under(v, p):
    return {((p,) + k)[:6]: s for k, s in v.items() if s}


def join(a, b):
    if not b:
        return a
    r = dict(a)
    for k, s in b.items():
        r[k] = r.get(k, E0) | s
    return r


def put(v, path, new):
    r = {k: s for k, s in v.items() if k[:len(path)] != path}
    for k, s in new.items():
        r[(path + k)[:6]] = s
    return r


def declared(w):
    """The value of a place declared for attribute w."""
    if w == PAIR:
        return {(("t", 0),): frozenset([W_]), (("t", 1),): frozenset([H_])}
    return {(): frozenset([w])}


def resolve(atoms):
    out = set()
    for a in atoms:
        if a[0] == "T":
            t = TAGS.get(a[1])
            if isinstance(t, list):
                if len(a) > 2 and isinstance(a[2], int) and a[2] < len(t) and t[a[2]]:
                    out.add(t[a[2]])
            elif t and isinstance(t[0], tuple):
                if len(a) > 2 and a[2] in ("hi", "lo"):
                    out.add(t[a[2] == "lo"])
            elif t:
                out.add(t)
        else:
            out.add(a)
    return out


class Flow:
    def __init__(self, F, report, skip=()):
        self.F = F
        self.report = report     # report(body, line, key, message)
        self.skip = skip
        self.memo = {}
        self.eff = {}
        self.full = set()
        self.nctx = {}
        self.stack = []
        self.groups = {}
        self.names = {}
        self.n_sinks = set()
        self.n_labelled = set()
        self.tags_seen = set()

    # ---------------------------------------------------------------- declared names
    def fields(self, adt, variant):
        k = (adt, variant)
        if k not in self.groups:
            a = self.F.adts.get(adt)
            out = {}
            if a and not adt.startswith(STD):
                vs = a["v"]
                if 0 <= variant < len(vs):
                    fs = vs[variant]["f"]
                    names = {f["n"].lower() for f in fs}
                    if last(adt) == "Point":
                        names |= {"width", "height"}
                    if last(adt) == "AspectRatio" and len(fs) == 2:
                        out = {0: ("G", H, EXT), 1: ("G", V, EXT)}
                    for i, f in enumerate(fs):
                        t = f.get("t")
                        if a["local"] and t is not None and not self.number(t):
                            continue
                        w = attr_of(f["n"], names)
                        if w:
                            out[i] = w
            if a and a["local"] and 0 <= variant < len(a["v"]):
                for i, f in enumerate(a["v"][variant]["f"]):
                    if f.get("t") is not None and pair_name(f["n"]) and self.pair(f["t"]):
                        out[i] = PAIR
            self.groups[k] = out
        return self.groups[k]

    def pair(self, t):
        F = self.F
        k = F.types[t]
        while (k["k"] in ("ref", "ptr")) or (k["k"] == "adt" and k["d"] in TRANSPARENT and k["a"]):
            k = F.types[k["t"] if "t" in k else k["a"][0]]
        return k["k"] == "tuple" and len(k["a"]) == 2 and all(F.types[x]["k"] in ("int", "float") for x in k["a"])

    def number(self, t):
        F = self.F
        k = F.types[t]
        for _ in range(6):
            if k["k"] in ("ref", "ptr", "array", "slice"):
                k = F.types[k["t"]]
            elif k["k"] == "adt" and k["a"] and (k["d"] in TRANSPARENT or k["d"] == "alloc::vec::Vec"):
                k = F.types[k["a"][0]]
            else:
                break
        return k["k"] in ("int", "float")

    def params(self, f):
        """position -> attribute, for the parameters of crate function `f` declared by name."""
        k = ("params", f)
        if k not in self.names:
            out = {}
            b = self.F.bodies.get(f)
            if b is not None and b.kind == "fn":
                ns = [(b.lname(i) or "").lower() for i in range(1, b.argc + 1)]
                grp = set(ns)
                for i, n in enumerate(ns):
                    if pair_name(n) and self.pair(b.lty(i + 1)):
                        out[i] = PAIR
                        continue
                    if not self.number(b.lty(i + 1)):
                        continue
                    w = attr_of(n, grp)
                    if w:
                        out[i] = w
                geo = [i for i in out if out[i][0] == "G"]
                for i in geo:
                    for j in geo:
                        if j <= i or i not in out or j not in out or out[i][1] == out[j][1]:
                            continue
                        if self.interchangeable(f, i, j):
                            out.pop(i, None)
                            out.pop(j, None)
                            break
                # a setter stores what it is named for
                m = re.match(r"^(set|with)_(.*)$", last(f))
                if m and b.argc == 2 and 1 not in out and self.number(b.lty(2)):
                    w = attr_of(m.group(2), {m.group(2)})
                    if w:
                        out[1] = w
            self.names[k] = out
        return self.names[k]

    def interchangeable(self, f, i, j, depth=0):
        """Parameters i and j of f are only multiplied with each other (or logged)."""
        b = self.F.bodies.get(f)
        if b is None or depth > 4:
            return False
        sides = [{i + 1}, {j + 1}]

        def side(o):
            return [n for n in (0, 1) if any(mentions(o, l) for l in sides[n])]

        while True:
            new = [set(), set()]
            for bb in b.reach:
                for s in b.blocks[bb]["s"]:
                    if s["k"] != "=":
                        continue
                    r, d = s["r"], s["p"]
                    if r["k"] == "bin" and r["op"].startswith("Mul"):
                        x, y = side(r["a"]), side(r["b"])
                        if (x or y) and sorted(x + y) != [0, 1]:
                            return False
                        continue
                    for n in side(r):
                        if d[1] or d[0] == 0:
                            return False
                        if r["k"] in ("use", "cast"):
                            new[n].add(d[0])
                        elif not self.logged(b, d[0]):
                            return False
                t = b.blocks[bb]["t"]
                if t["k"] == "switch" and side(t["d"]):
                    return False
                if t["k"] != "call":
                    continue
                ss = [side(o) for o in t["a"]]
                if not any(ss):
                    continue
                g = t.get("f") or ""
                if g.startswith("core::fmt::"):
                    continue
                if last(g).split("_")[-1] == "mul" and sorted(sum(ss, [])) == [0, 1]:
                    continue
                if last(g) in CONV | {"clone", "deref", "borrow"} and g.startswith(STD) and not t["d"][1] and t["d"][0]:
                    for n in ss[0]:
                        new[n].add(t["d"][0])
                    continue
                pos = [[k for k, x in enumerate(ss) if n in x] for n in (0, 1)]
                if g in self.F.bodies and len(pos[0]) == len(pos[1]) == 1 and pos[0] != pos[1] \
                        and self.interchangeable(g, pos[0][0], pos[1][0], depth + 1):
                    continue
                return False
            if new[0] <= sides[0] and new[1] <= sides[1]:
                return True
            sides[0] |= new[0]
            sides[1] |= new[1]

    def logged(self, b, l):
        """What local l holds only goes into formatted text."""
        follow, seen = [l], set()
        while follow:
            x = follow.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == 0:
                return False
            for bb in b.reach:
                for s in b.blocks[bb]["s"]:
                    if s["k"] == "=" and mentions(s["r"], x):
                        if s["p"][1] or s["r"]["k"] not in ("use", "cast", "ref", "agg"):
                            return False
                        follow.append(s["p"][0])
                t = b.blocks[bb]["t"]
                if t["k"] == "switch" and mentions(t["d"], x):
                    return False
                if t["k"] == "call" and mentions(t["a"], x) and not (t.get("f") or "").startswith("core::fmt::"):
                    return False
        return True

    def getter(self, f):
        """The attribute accessor `f` is named for."""
        k = ("get", f)
        if k not in self.names:
            w = None
            i = self.F.fns.get(f)
            if i and len(i.get("in", ())) == 1 and i.get("self") is not None:
                if self.number(i["out"]):
                    w = attr_of(last(f), {last(f)})
                elif pair_name(last(f)) and self.pair(i["out"]):
                    w = PAIR
            self.names[k] = w
        return self.names[k]

    # ---------------------------------------------------------------- analysis
    def freeze(self, vals):
        return tuple(tuple(sorted(((k, tuple(sorted(s, key=repr))) for k, s in v.items() if s), key=repr)) for v in vals)

    def run_body(self, bid, args, caller=None):
        b = self.F.bodies.get(bid)
        if b is None or any(s in bid for s in self.skip):
            return {}
        key = (bid, self.freeze(args))
        if key in self.memo:
            if caller is not None:
                caller.effects(self.eff.get(key, {}))
            return self.memo[key]
        if len(self.stack) >= MAXDEPTH or any(s == bid for s in self.stack):
            return {}
        if self.nctx.get(bid, 0) >= MAXCTX:
            self.full.add(bid)
            return {}
        self.nctx[bid] = self.nctx.get(bid, 0) + 1
        self.memo[key] = {}
        self.stack.append(bid)
        run = Run(self, b, args)
        r = run.go()
        self.stack.pop()
        self.memo[key] = r
        self.eff[key] = run.eff
        if caller is not None:
            caller.effects(run.eff)
        return r

    def label(self, atoms):
        for a in atoms:
            if a[0] in "GA":
                return True
        return False


def mentions(x, l):
    if isinstance(x, dict):
        p = x.get("p")
        if isinstance(p, list) and p and p[0] == l and x.get("k") in ("copy", "move", "ref", "rawptr", "len", "discr"):
            return True
        if isinstance(p, list) and len(p) == 2 and isinstance(p[1], list) and any(
                not isinstance(e, str) and e[0] == "i" and e[1] == l for e in p[1]):
            return True
        return any(mentions(v, l) for k, v in x.items() if k != "p")
    if isinstance(x, list):
        return any(mentions(v, l) for v in x)
    return False


class Run:
    """One body under one combination of incoming labels."""

    def __init__(self, fl, b, args):
        self.fl, self.b, self.F = fl, b, fl.F
        self.args = args
        self.ret = {}
        self.final = False
        self.eff = {}       # what the body stores in variables of the functions around it
        self.st = None
        self.names = None

    def effects(self, eff):
        for tgt, v in eff.items():
            if tgt[1] == self.b.id and self.st is not None:
                st = self.st
                st[tgt[2]] = put(st.get(tgt[2], {}), tgt[3], join(self.descend(st.get(tgt[2], {}), tgt[3]), v))
            else:
                self.eff[tgt] = join(self.eff.get(tgt, {}), v)

    def go(self):
        b = self.b
        st = {}
        decl = self.fl.params(b.id)
        for i in range(1, b.argc + 1):
            v = self.args[i - 1] if i - 1 < len(self.args) else {}
            if i - 1 in decl:
                v = declared(decl[i - 1])
            if v:
                st[i] = v
        ins = {0: st}
        order = {x: i for i, x in enumerate(b.reach)}
        for rnd in range(8):
            ch = False
            for bb in b.reach:
                if bb not in ins:
                    continue
                for s, out in self.block(bb, dict(ins[bb])):
                    old = ins.get(s)
                    if old is None:
                        ins[s] = out
                        ch = True
                        continue
                    new = None
                    for l, v in out.items():
                        o = old.get(l, {})
                        j = join(o, v)
                        if j != o:
                            if new is None:
                                new = dict(old)
                            new[l] = j
                    if new is not None:
                        ins[s] = new
                        ch = True
            if not ch:
                break
        self.final = True
        self.ret = {}
        for bb in b.reach:
            if bb in ins:
                self.block(bb, dict(ins[bb]))
        w = self.fl.getter(b.id)
        if w and b.kind == "fn":
            self.sink_value(self.ret, w, b.line, "the result of %s" % last(b.id))
            return declared(w)
        return self.ret

    def block(self, bb, st):
        b = self.b
        blk = b.blocks[bb]
        for s in blk["s"]:
            if s["k"] == "=":
                self.line = s.get("l")
                self.assign(st, pl(s["p"]), self.rvalue(st, s["r"]))
            elif s["k"] == "dead":
                pass
        t = blk["t"]
        self.line = t.get("l")
        self.st = st
        if t["k"] == "call":
            v = self.call(st, t)
            self.assign(st, pl(t["d"]), v)
        elif t["k"] == "return":
            self.ret = join(self.ret, st.get(0, {}))
        return [(s, st) for s in b.succ[bb]]

    # ---------------------------------------------------------------- sinks
    def sink(self, atoms, want, line, what):
        if not self.final:
            return
        fl = self.fl
        fl.n_sinks.add((self.b.id, what, want))
        atoms = resolve(atoms)
        if any(a[0] in "GA" for a in atoms):
            fl.n_labelled.add((self.b.id, what, want))
        for a in sorted(atoms, key=repr):
            if conflict(a, want):
                self.complain(line, "%s<-%s" % (what, show(a)), "%s is declared a %s but can be given a %s" % (what, show(want), show(a)))

    def complain(self, line, key, msg):
        if self.final:
            self.fl.report(self.b, line, key, msg, list(self.fl.stack))

    # ---------------------------------------------------------------- places
    def steps(self, p):
        """(type before, element) along place p."""
        b, F = self.b, self.F
        t = b.locals[p[0]][0]
        for e in p[1]:
            yield t, e
            if t is None:
                continue
            k = F.types[t]
            if e == "*":
                t = k["t"] if k["k"] in ("ref", "ptr") else (k["a"][0] if k["k"] == "adt" and k["a"] else None)
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = k["t"] if k["k"] in ("array", "slice") else None

    def walk(self, st, p):
        """(root local, path, attribute or None): where place p lives, following what refs stand for.

        attribute: the last declared field on the way and the path below it."""
        F = self.F
        l, path, attr, variant = p[0], (), None, 0
        for t, e in self.steps(p):
            if e == "*":
                if not path and attr is None:
                    al = [a for a in st.get(l, {}).get((), E0) if a[0] == "r"]
                    if len(al) == 1:
                        l, path = al[0][1], al[0][2]
                continue
            if e[0] == "dc":
                variant = e[1]
                continue
            if e[0] == "f":
                k = F.types[t] if t is not None else {"k": "?"}
                if k["k"] == "adt":
                    d = k["d"]
                    if d in TRANSPARENT:
                        continue
                    w = self.fl.fields(d, variant).get(e[1])
                    if w:
                        attr, path = (d, e[1], w), ()
                    else:
                        attr = None
                        path = path + (("f", variant, e[1]),)
                else:
                    path = path + (("t", e[1]),)
                variant = 0
                continue
            if e[0] == "ci" and not e[3]:
                path = path + (("i", e[1]),)
            elif e[0] == "i":
                c = self.const_local(e[1])
                path = path + (("i", c),)
            else:
                path = path + (("i", None),)
        return l, path[:6], attr

    def const_local(self, l):
        d = self.b.single_def(l)
        if d and d[2].get("k") == "use":
            o = d[2]["o"]
            if o["k"] == "const" and isinstance(o.get("v"), int):
                return o["v"]
        return None

    def elem(self, v, i):
        """Value of element i of the collection value v."""
        whole = set()
        for a in v.get((), E0):
            if a[0] == "T":
                if isinstance(TAGS.get(a[1]), list):
                    if len(a) == 2 and i is not None:
                        whole.add(("T", a[1], i))
                else:
                    whole.add(a)
            elif a[0] in "GAN":
                whole.add(a)
        r = {(): frozenset(whole)} if whole else {}
        if i is not None:
            r = join(r, prefix(v, ("i", i)))
        else:
            subs = [prefix(v, k) for k in {k[0] for k in v if k and k[0][0] == "i"}]
            if subs and all(s == subs[0] for s in subs):
                r = join(r, subs[0])
        return r

    def descend(self, v, path):
        for e in path:
            if e[0] == "i":
                v = self.elem(v, e[1])
            else:
                w = prefix(v, e)
                if e[0] == "f" and e[2] == 0 and any(a[0] == "T" for a in v.get((), E0)):
                    w = join(w, {(): frozenset(a for a in v[()] if a[0] == "T")})
                v = w
        return v

    def read(self, st, p):
        l, path, attr = self.walk(st, p)
        if attr:
            v = declared(attr[2])
            return self.descend(v, path) if path else v
        return self.descend(st.get(l, {}), path)

    def assign(self, st, p, v):
        l, path, attr = self.walk(st, p)
        if attr:
            if all(e[0] == "i" for e in path):
                self.sink_value(v, attr[2], self.line, "%s.%s" % (last(attr[0]), self.fname(attr)))
            return
        if p[1] and p[1][-1] == "*":
            crs = [a for a in self.descend(st.get(l, {}), path).get((), E0) if a[0] == "cr"]
            if crs:
                v = {k: frozenset(a for a in s if a[0] not in ("r", "cr")) for k, s in v.items()}
                for a in crs:
                    self.effects({a: v})
                return
        if p[1] and p[1][0] == "*" and l == p[0]:
            al = st.get(p[0], {}).get((), E0)
            if any(a[0] == "r" for a in al):
                return
        if any(e[0] == "i" and e[1] is None for e in path):
            return
        if path:
            st[l] = put(st.get(l, {}), path, v)
        else:
            if not any(v.values()) and not p[1]:
                w = self.named(l)
                if w:
                    v = declared(w)
            st[l] = v

    def named(self, l):
        """What a number of unknown origin is, going by the name of the variable it is kept in."""
        if self.names is None:
            self.names = {}
            group = {x for x in (self.b.lname(i) for i in range(len(self.b.locals))) if x}
            for i in range(self.b.argc + 1, len(self.b.locals)):
                n = self.b.lname(i)
                if n and self.fl.number(self.b.lty(i)):
                    w = attr_of(n, group) or {"row": ("G", V, COORD), "col": ("G", H, COORD),
                                              "column": ("G", H, COORD)}.get(n)
                    if w and w not in (("A", "off"), ("A", "len")):
                        self.names[i] = w
        return self.names.get(l)

    def fname(self, attr):
        a = self.F.adts[attr[0]]
        for v in a["v"]:
            if attr[1] < len(v["f"]):
                return v["f"][attr[1]]["n"]
        return str(attr[1])

    def sink_value(self, v, want, line, what):
        if want == PAIR:
            for i, w in ((0, W_), (1, H_)):
                self.sink(v.get((("t", i),), E0), w, line, "%s.%d" % (what, i))
            return
        self.sink(v.get((), E0), want, line, what)
        for k, s in v.items():
            if k and all(e[0] == "i" for e in k):
                self.sink(s, want, line, what)

    # ---------------------------------------------------------------- rvalues
    def op(self, st, o):
        if o["k"] in ("copy", "move"):
            return self.read(st, pl(o["p"]))
        if o["k"] == "const":
            d = o.get("def")
            if d:
                n = last(d)
                if n in TAGS or ("TAG" in n or "MNOTE" in n):
                    self.fl.tags_seen.add(n)
                    return {(): frozenset([("K", n)])}
            t = self.F.types[o["t"]] if o.get("t") is not None else {"k": "?"}
            if t["k"] == "fndef":
                return {(): frozenset([("fn", t.get("res") or t["d"])])}
            if t["k"] in ("int", "float"):
                return {(): frozenset([N])}
            if t["k"] == "closure":
                return {(): frozenset([("cl", t["d"])])}
        return {}

    def rvalue(self, st, r):
        k = r["k"]
        if k == "use":
            return self.op(st, r["o"])
        if k in ("ref", "rawptr"):
            p = pl(r["p"])
            if r.get("mut") and r["mut"] not in ("not", "const", False):
                l, path, attr = self.walk(st, p)
                v = self.read(st, p)
                if attr is None and not any(e[0] == "i" for e in path):
                    v = dict(v)
                    v[()] = frozenset(a for a in v.get((), E0)) | {("r", l, path)}
                return v
            return self.read(st, p)
        if k == "cast":
            return self.op(st, r["o"])
        if k == "bin":
            va = self.op(st, r["a"])
            h = self.halves(st, r["op"], va, r["b"])
            return h if h is not None else self.binary(st, r["op"], va, self.op(st, r["b"]))
        if k == "un":
            return {}
        if k == "agg":
            ops = [self.op(st, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "adt":
                d = r["d"]
                return self.make(d, r.get("v") or 0, ops)
            out = {}
            for i, v in enumerate(ops):
                v = self.capture(st, v) if ak == "closure" else v
                out.update(under(v, ("i" if ak == "array" else "t", i)))
            if ak == "closure":
                out[()] = frozenset([("cl", r["d"])])
            return out
        if k == "repeat":
            v = self.op(st, r["o"])
            return {(): v.get((), E0)}
        return {}

    def halves(self, st, op, va, o):
        """The 16 bits halves of a number that packs two values."""
        ts = [a for a in va.get((), E0) if a[0] == "T" and isinstance(TAGS.get(a[1]), tuple)
              and isinstance(TAGS[a[1]][0], tuple)]
        if not ts:
            return None
        c = None
        if o["k"] == "const":
            c = o.get("v")
        elif not o["p"][1]:
            c = self.const_local(o["p"][0])
        if op == "BitAnd" and c == 0xffff:
            return {(): frozenset(a if len(a) > 2 else a + ("lo",) for a in ts)}
        if op == "BitAnd" and c == 0xffff0000:
            return {(): frozenset(ts)}
        if op in ("Shr", "ShrUnchecked") and c == 16:
            return {(): frozenset(a if len(a) > 2 else a + ("hi",) for a in ts)}
        return {}

    def make(self, d, variant, ops):
        if d in TRANSPARENT:
            return ops[0] if ops else {}
        decl = self.fl.fields(d, variant)
        out = {}
        for i, v in enumerate(ops):
            if i in decl:
                self.sink_value(v, decl[i], self.line, "%s.%s" % (last(d), self.fname((d, i, None))))
            else:
                out.update(under(v, ("f", variant, i)))
        return out

    def capture(self, st, v):
        al = [a for a in v.get((), E0) if a[0] == "r"]
        if al:
            v = dict(v)
            v[()] = frozenset(a for a in v.get((), E0) if a[0] != "r") | {("cr", self.b.id) + a[1:] for a in al}
        return v

    def escape(self, st, v):
        """A mutable borrow handed out: what it stands for is no longer known."""
        al = [a for a in v.get((), E0) if a[0] == "r"]
        for a in al:
            if a[1] in st:
                st[a[1]] = put(st[a[1]], a[2], {})
        if al:
            v = dict(v)
            v[()] = frozenset(a for a in v[()] if a[0] != "r")
        return v

    def binary(self, st, op, va, vb):
        A, B = resolve(va.get((), E0)), resolve(vb.get((), E0))
        A = {a for a in A if a[0] in ("G", "A", "N", "P", "M")}
        B = {a for a in B if a[0] in ("G", "A", "N", "P", "M")}
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Lt", "Le", "Gt", "Ge"):
            for a in A:
                for c in B:
                    self.compare(a, c)
            return {}
        if base == "Add":
            for a, o in [(a, B) for a in A] + [(a, A) for a in B]:
                if a[0] == "P" and not any(x[0] in "GPM" for x in o) and len(a[1]) == 2:
                    f, e = sorted(a[1], key=lambda x: x[2] != COORD)
                    if f[1] == e[1] and f[2] == COORD and e[2] == EXT:
                        self.complain(self.line, "index %s*%s" % (show(f), show(e)),
                                      "an index is made of a %s times a %s: the stride belongs to the other axis"
                                      % (show(f), show(e)))
        out = set()
        # a constant beside a label is a default for it
        A = {a for a in A if a != N} or A
        B = {a for a in B if a != N} or B
        if A and B:
            for a in A:
                for c in B:
                    x = self.arith(base, a, c)
                    if x:
                        out.add(x)
        v = {(): frozenset(out)} if out else {}
        if op.endswith("WithOverflow"):
            return under(v, ("t", 0))
        return v

    def compare(self, a, c):
        if a[0] == "G" and c[0] == "G" and a[1] != c[1]:
            big = [x for x in (a, c) if x[2] in (EXT, END)]
            if len(big) == 1:
                o = c if big[0] is a else a
                self.complain(self.line, "compare %s/%s" % tuple(sorted((show(a), show(c)))),
                              "a %s is compared with a %s" % (show(o), show(big[0])))

    def arith(self, op, a, c):
        if op in ("Add", "Sub"):
            if a == N and c == N:
                return N
            if MIXED in (a, c):
                return MIXED
            if c == N:
                return a if a[0] in "GP" else (a if a[0] == "A" and a[1] != "len" else None)
            if a == N:
                return c if op == "Add" and c[0] in "GPA" and c != ("A", "len") else None
            if a[0] == "P" or c[0] == "P":
                p, o = (a, c) if a[0] == "P" else (c, a)
                if o[0] == "G" and op == "Add":
                    self.linear(p, o)
                return None
            if a[0] == "G" and c[0] == "G":
                if a[1] != c[1]:
                    if op == "Add" and EXT in (a[2], c[2]):
                        self.complain(self.line, "add %s/%s" % tuple(sorted((show(a), show(c)))),
                                      "a %s is added to a %s" % (show(c), show(a)))
                    if op == "Sub" and (a[2] in (EXT, END)) and c[2] != EXT:
                        self.complain(self.line, "sub %s/%s" % (show(a), show(c)),
                                      "a %s is subtracted from a %s" % (show(c), show(a)))
                    return MIXED
                if op == "Add":
                    nat = {frozenset((COORD, EXT)): END, frozenset((EXT,)): EXT, frozenset((COORD,)): COORD}.get(
                        frozenset((a[2], c[2])), ANY)
                else:
                    nat = EXT if (a[2], c[2]) == (END, COORD) else ANY
                return ("G", a[1], nat)
            if a == c and a[0] == "A" and a[1] in ("off",) and op == "Add":
                return a
            return None
        if op == "Mul":
            if a == N and c == N:
                return N
            if MIXED in (a, c):
                return None
            if c == N or a == N:
                return a if c == N else c
            if a[0] == "G" and c[0] == "G":
                if a == c and a[2] == EXT:
                    self.complain(self.line, "square %s" % show(a), "a %s is multiplied by a %s" % (show(a), show(a)))
                return ("P", frozenset([a, c]) if a != c else frozenset([a]))
            cc = ("A", "cc")
            if cc in (a, c):
                return c if a == cc else a
            return None
        if op == "Div":
            if c == N:
                return a if a[0] in "GNM" else None
            return None
        if op in ("Shl", "Shr"):
            if c == N:
                return a if a[0] in "GNM" else None
            return None
        return N if a == N and c == N else None

    def linear(self, p, o):
        """row * columns + column: the factor of the row must be the extent along the column's axis."""
        ps = list(p[1])
        if all(x[1] == ps[0][1] for x in ps) and ps[0][1] != o[1]:
            f, e = (ps * 2)[:2]
            if e[2] != EXT:
                f, e = e, f
            self.complain(self.line, "index %s*%s+%s" % (show(f), show(e), show(o)),
                          "an index is made of a %s times a %s plus a %s: the stride belongs to the other axis"
                          % (show(f), show(e), show(o)))

    # ---------------------------------------------------------------- calls
    def call_value(self, v, args, depth=0):
        """Result of calling function value v."""
        out = {}
        for a in v.get((), E0):
            if a[0] == "cl":
                env = {k: s for k, s in v.items() if k}
                out = join(out, self.fl.run_body(a[1], [env] + args, self))
            elif a[0] == "fn":
                out = join(out, self.apply(a[1], a[1], args))
        return out

    def apply(self, f, named, args):
        """Call of crate function f (or construction, when it is a constructor)."""
        fl, F = self.fl, self.F
        b = F.bodies.get(f)
        if b is None:
            c = self.ctor(f)
            if c:
                return self.make(c[0], c[1], args)
            return {}
        for i, w in fl.params(f).items():
            if i < len(args):
                self.sink_value(args[i], w, self.line, "argument %d (%s) of %s" % (i + 1, b.lname(i + 1), last(f)))
        return fl.run_body(f, args, self)

    def ctor(self, f):
        if f in self.F.adts:
            return f, 0
        base = f.rsplit("::", 1)
        if len(base) == 2 and base[0] in self.F.adts:
            for i, v in enumerate(self.F.adts[base[0]]["v"]):
                if v["n"] == base[1]:
                    return base[0], i
        # tuple constructors: ...::{ctor}
        m = re.match(r"^(.*)::\{constructor#\d+\}$", f)
        if m:
            return self.ctor(m.group(1))
        return None

    def call(self, st, t):
        F, fl = self.F, self.fl
        args = [self.op(st, o) for o in t["a"]]
        f = t.get("f")
        if f is None:
            fv = self.op(st, t["fp"]) if isinstance(t.get("fp"), dict) else {}
            return self.call_value(fv, [self.escape(st, a) for a in args])
        name = last(f)
        res = t.get("res")
        target = res if res and res != "virtual" else None
        local = (target or f).startswith("libopenraw::") or f.startswith("libopenraw::")

        # exchanging two variables
        if name == "swap" and f.startswith(STD) and len(args) == 2:
            rs = [[a for a in x.get((), E0) if a[0] == "r"] for x in args]
            if all(len(r) == 1 for r in rs):
                (_, l1, p1), (_, l2, p2) = rs[0][0], rs[1][0]
                v1, v2 = self.descend(st.get(l1, {}), p1), self.descend(st.get(l2, {}), p2)
                st[l1] = put(st.get(l1, {}), p1, v2)
                st[l2] = put(st.get(l2, {}), p2, v1)
                return {}
        if not (f.startswith(STD) and name in ("next", "by_ref", "as_mut", "deref_mut", "iter_mut")):
            args = [self.escape(st, a) for a in args]

        if target and target in F.bodies:
            return self.crate_call(st, t, f, target, args)
        if local:
            if res == "virtual" or target is None:
                w = fl.getter(f) or self.trait_getter(f)
                if w:
                    return declared(w)
                im = [i for i, _ in F.impl_of.get(f, []) if i in F.bodies]
                if im:
                    for i, w in fl.params(im[0]).items():
                        if i < len(args):
                            self.sink_value(args[i], w, self.line, "argument %d (%s) of %s" % (i + 1, F.bodies[im[0]].lname(i + 1), name))
                k = self.tagged(f, args)
                if k is not None:
                    return k
                if f in F.bodies:
                    return self.crate_call(st, t, f, f, args)
                return {}
            c = self.ctor(target or f)
            if c:
                return self.make(c[0], c[1], args)
            return {}
        # a value of the standard library, or of another crate
        return self.std(st, t, f, name, args)

    def trait_getter(self, f):
        i = self.F.fns.get(f)
        if i and len(i.get("in", ())) == 1 and self.fl.number(i["out"]):
            return attr_of(last(f), {last(f)})
        return None

    def tagged(self, f, args):
        """A value looked up with a tag, or taken from the entry of a tag."""
        ks = [a[1] for x in args for a in x.get((), E0) if a[0] == "K"]
        if not ks:
            ks = [a[1] for x in args[:1] for a in x.get((), E0) if a[0] == "T"] if f.startswith("libopenraw::tiff::") else []
        if ks:
            return {(): frozenset(("T", k) for k in ks)}
        return None

    def crate_call(self, st, t, f, target, args):
        fl = self.fl
        w = fl.getter(target)
        r = self.tagged(target, args) if target.startswith("libopenraw::tiff::") or any(
            a[0] == "K" for x in args for a in x.get((), E0)) else None
        if r is not None and not w:
            out = self.F.fns.get(target, {}).get("out")
            if target.startswith("libopenraw::tiff::"):
                return r if out is None or "Result<()" not in self.F.tys(out) else {}
            v = self.apply(target, f, args)
            if any(a[0] in "GAT" for x in v.values() for a in x):
                return v
            return r if out is not None and (fl.number(out) or self.value_like(out)) else {}
        v = self.apply(target, f, args)
        if w:
            return declared(w)
        return v

    def value_like(self, t):
        """A type that holds a value read from a file: a crate enum with a number in it."""
        F = self.F
        k = F.types[t]
        for _ in range(4):
            if k["k"] in ("ref", "ptr"):
                k = F.types[k["t"]]
            elif k["k"] == "adt" and k["d"] in TRANSPARENT and k["a"]:
                k = F.types[k["a"][0]]
        a = F.adts.get(k.get("d")) if k["k"] == "adt" else None
        return bool(a and a["local"] and a["kind"] == "enum" and any(
            len(v["f"]) == 1 and v["f"][0].get("t") is not None and self.fl.number(v["f"][0]["t"]) for v in a["v"]))

    def std(self, st, t, f, name, args):
        a0 = args[0] if args else {}
        if name in ("call", "call_mut", "call_once") and "function" in f and len(args) == 2:
            tup = args[1]
            n = 0
            while any(k and k[0] == ("t", n) for k in tup):
                n += 1
            n = max([k[0][1] for k in tup if k and k[0][0] == "t"], default=-1) + 1
            return self.call_value(a0, [prefix(tup, ("t", i)) for i in range(n)])
        if name in ("map", "and_then", "filter_map", "flat_map", "then", "for_each", "try_for_each", "inspect", "is_some_and", "any", "all") and len(args) >= 2:
            r = self.call_value(args[1], [self.item(st, t, 0, a0)])
            return a0 if name == "inspect" else r
        if name in ("fold", "try_fold") and len(args) == 3:
            return self.call_value(args[2], [args[1], self.item(st, t, 0, a0)])
        if name == "map_or" and len(args) == 3:
            return join(dict(args[1]), self.call_value(args[2], [a0]))
        if name == "map_or_else" and len(args) == 3:
            return join(self.call_value(args[1], []), self.call_value(args[2], [a0]))
        if name in ("unwrap_or_else", "or_else", "get_or_insert_with") and len(args) == 2:
            return join(dict(a0), self.call_value(args[1], []))
        if name in BOTH and len(args) == 2:
            return join(dict(a0), args[1])
        if name in ("min", "max", "clamp") and len(args) >= 2:
            gs = {a[1] for x in args for a in resolve(x.get((), E0)) if a[0] == "G"}
            if len(gs) > 1:
                return {}
            out = set()
            for x in args:
                out |= {a for a in resolve(x.get((), E0)) if a != N}
            if not all(x.get(()) for x in args):
                return {}
            if not out:
                out = {N}
            return {(): frozenset(out)}
        if name == "zip" and len(args) == 2:
            r = under(a0, ("t", 0))
            r.update(under(args[1], ("t", 1)))
            return r
        if name in ("bitand", "shr") and len(args) == 2:
            h = self.halves(st, "BitAnd" if name == "bitand" else "Shr", a0, t["a"][1])
            return h if h is not None else self.binary(st, name.capitalize(), a0, args[1])
        if name in ARITH and len(args) == 2:
            return self.binary(st, ARITH[name], a0, args[1])
        if name in ("lt", "le", "gt", "ge") and len(args) == 2:
            return self.binary(st, name.capitalize(), a0, args[1])
        if name in ("get", "index", "nth") and len(args) == 2:
            ks = [a[1] for a in args[1].get((), E0) if a[0] == "K"]
            if ks:
                return {(): frozenset(("T", k) for k in ks)}
            i = self.index_of(t)
            if name == "nth":
                i = None
            return self.elem(a0, i)
        if name == "first":
            return self.elem(a0, 0)
        if name == "next" and len(args) == 1:
            return self.item(st, t, 0, a0)
        if name in CONV and args:
            d = pl(t["d"])
            ty = self.b.place_ty(d)
            if ty is not None and self.fl.number(ty):
                return {(): a0.get((), E0)}
            return a0 if self.same_shape(t) else {}
        if name in IDENT and args:
            for a in args[1:]:
                if a.get(()):
                    self.call_value(a, [self.item(st, t, 0, a0)] if "filter" in name or "while" in name else [{}] * 2)
            return {k: frozenset(a for a in s if a[0] != "r") for k, s in a0.items()}
        if name == "into_vec" or name == "box_assume_init_into_vec_unsafe":
            return a0
        if name in ("abs",):
            return a0
        if name in ("new", "Some", "Ok", "wrap") and len(args) == 1 and f.startswith(STD):
            c = self.ctor(f)
            if c:
                return self.make(c[0], c[1], args)
            return a0
        if name in ("new",) and len(args) == 2 and "range" in f:
            r = under(a0, ("f", 0, 0))
            r.update(under(args[1], ("f", 0, 1)))
            return r
        c = self.ctor(f)
        if c:
            return self.make(c[0], c[1], args)
        # closures handed to anything else run too
        r = {}
        for a in args:
            if a.get(()):
                r = join(r, self.call_value(a, [{}] * 4))
        return r if name in ("get_or_init", "get_or_try_init") else {}

    def same_shape(self, t):
        a = self.b.op_ty(t["a"][0])
        d = self.b.place_ty(pl(t["d"]))
        return a is not None and a == d

    def index_of(self, t):
        o = t["a"][1]
        if o["k"] == "const":
            v = o.get("v")
            return v if isinstance(v, int) else None
        if o["k"] in ("copy", "move") and not o["p"][1]:
            return self.const_local(o["p"][0])
        return None

    def item(self, st, t, i, v):
        """What an iterator (or option) hands out."""
        ends = v.get((("f", 0, 1),), E0)
        if ends:
            start = resolve(v.get((("f", 0, 0),), E0))
            out = set()
            for a in resolve(ends):
                if a[0] == "G":
                    out.add(("G", a[1], COORD))
            if start - {N} - out:
                return {}
            return {(): frozenset(out)} if out else {}
        v = {k: frozenset(a for a in s if a[0] != "r") for k, s in v.items()}
        if any(k and k[0][0] == "i" for k in v) or any(a[0] == "T" and isinstance(TAGS.get(a[1]), list) for a in v.get((), E0)):
            ty = self.b.op_ty(t["a"][0])
            # an option of a collection hands out the collection, an iterator its elements
            k = self.F.types[ty] if ty is not None else {"k": "?"}
            while k["k"] in ("ref", "ptr"):
                k = self.F.types[k["t"]]
            if k["k"] == "adt" and k["d"] in TRANSPARENT:
                return v
            return self.elem(v, None)
        return v
