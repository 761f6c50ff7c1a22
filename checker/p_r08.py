"""R08: byte order is honoured consistently."""
import re
import mir, cg, inter
from expr import X, last
from ranges import Ranges

BIG, LITTLE = "big", "little"
BO = {"byteorder::BigEndian": BIG, "byteorder::LittleEndian": LITTLE, "byteorder::NativeEndian": "native", "byteorder::NetworkEndian": BIG}
ENDIAN = "libopenraw::container::Endian"
# data formats that define their own order: what runs in there says nothing about the caller's data
SELF_DESCRIBING = ("src/decompress/ljpeg", "src/mp4/", "src/jpeg/")
# operations whose order is fixed by the format, wherever no Endian value decides: (file, operation) -> order
FIXED = {
    ("src/mp4/", "*"): BIG, ("src/jpeg/", "*"): BIG,
    ("src/fujifilm/decompress", "*"): BIG,
    ("src/fujifilm/raf.rs", "*"): BIG,
    ("src/fujifilm.rs", "from_bytes"): BIG,
    ("src/fujifilm.rs", "load_buffer16"): LITTLE, ("src/fujifilm.rs", "unpack_14to16"): LITTLE,
    ("src/minolta.rs", "load_buffer16"): BIG, ("src/minolta.rs", "unpack_12to16"): BIG,
    ("src/decompress/ljpeg.rs", "*"): BIG, ("src/olympus.rs", "decode_12be_olympus"): BIG, ("src/olympus.rs", "decode_12be_olympus_interlaced"): BIG,
    ("src/nikon.rs", "read_u16"): BIG, ("src/nikon.rs", "read_u32"): LITTLE, ("src/nikon.rs", "unpack_12to16"): BIG,
    ("src/panasonic.rs", "load_buffer16"): LITTLE,
    ("src/sony.rs", "read:u32"): LITTLE,
    ("src/decompress.rs", "unpack_12to16"): "either",
    ("src/decompress/bit_reader.rs", "read_u32"): "either", ("src/decompress/bit_reader.rs", "read_u16"): BIG,
    ("src/container.rs", "load_buffer16_endian"): "either", ("src/container.rs", "load_buffer16"): LITTLE,  # the order of the machine
    ("src/io.rs", "*"): "either",
}
# the values of a tag that are in another order than the file they are in: (file, tag) -> order
TAGGED = {("src/fujifilm/raf.rs", 0xc000): LITTLE}
# constants of type Endian that the format justifies: (file, consumer) -> variants
CONSTS = {
    ("src/minolta.rs", "MrwContainer.endian"): {"Big"},
    ("src/sony.rs", "set_endian"): {"Little"}, ("src/sony.rs", "camera_settings"): {"Big"},
    ("src/sony.rs", "tiff_get_rawdata_with_endian"): {"Big"},
    ("src/mp4/container.rs", "return:endian"): {"Big"}, ("src/jpeg/container.rs", "return:endian"): {"Big"},
    ("src/fujifilm/raf.rs", "return:endian"): {"Big"},
    ("src/fujifilm.rs", "unpack_from_reader"): {"Little"}, ("src/olympus.rs", "unpack_from_reader"): {"Little"},
    ("src/panasonic.rs", "unpack_from_reader"): {"Little"},
    ("src/pentax/decompress.rs", "read_u32"): {"Big"},
    ("src/tiff/dir.rs", "new_makernote"): {"Little"},
}


USED = set()


def chk(R, rule, cond, key, msg, where):
    return R.check(cond, rule, key, msg, where)


def tokens(n):
    return re.split(r"[_\W]|(?<=[a-z])(?=[0-9])|(?<=[a-z])(?=[A-Z])|(?<=[0-9])(?=[a-zA-Z])", n)


def named_order(n):
    """Order the name of a local function or type announces."""
    t = [x.lower() for x in tokens(n)]
    b, l = "be" in t or "bigendian" in t, "le" in t or "littleendian" in t
    b, l = b or "big" in t or "msb" in t, l or "little" in t or "lsb" in t
    return BIG if b and not l else LITTLE if l and not b else None


def norm_name(n):
    """The operation, without its order."""
    t = [x for x in re.split(r"_", n) if x not in ("be", "le")]
    n = "_".join(t)
    return re.sub(r"(?<=_)(be|le)(?=[0-9])", "", n)


def is_endian(F, t):
    while t is not None and F.types[t]["k"] in ("ref", "ptr"):
        t = F.types[t]["t"]
    return t is not None and F.types[t]["k"] == "adt" and F.types[t]["d"] == ENDIAN


class Orders:
    def __init__(self, F, C, R):
        self.F, self.C, self.R = F, C, R
        self.memo = {}
        self.busy = set()
        self.adt = {}
        self.keys = {}
        self.rng = {}

    # ---- the order of one call
    def type_order(self, t, depth=0):
        """Order of a type: byteorder markers, local types named after an order."""
        F = self.F
        k = F.types[t]
        if k["k"] == "adt":
            d = k["d"]
            if d in BO:
                return BO[d]
            if d.startswith("libopenraw::"):
                o = named_order(d.rsplit("::", 1)[1])
                if o:
                    return o
        return None

    def call(self, b, t):
        """(operation, orders) of a call: which byte orders it is fixed to."""
        F = self.F
        f = t.get("res") or t.get("f")
        if not f:
            return None
        n = last(F.nice(f))
        out = set()
        prim = True
        for a in t.get("ta") or ():
            if isinstance(a, int):
                o = self.type_order(a)
                if o:
                    out.add(o)
        if f.startswith("core::") or f.startswith("byteorder::") or f.startswith("std::") or f.startswith("alloc::"):
            m = re.match(r"(from|to|read|get|put|write)_(be|le|ne)(_bytes)?$", n)
            if m:
                out.add({"be": BIG, "le": LITTLE, "ne": "native"}[m.group(2)])
        elif f.startswith("libopenraw::"):
            # a generic function given an order by type argument has that order
            if not out:
                out |= self.local(f)
                prim = named_order(n) is not None
                if len(out) > 1:
                    return None
        tt = [self.F.types[a]["s"] for a in t.get("ta") or () if isinstance(a, int)]
        if n in ("read", "le_bytes", "be_bytes") and tt and f.startswith("libopenraw::"):
            if tt[0] in ("u8", "i8", "std::string::String", "alloc::string::String"):
                return None
            n = "%s:%s" % (n, tt[0])
        return n, out, prim

    def local(self, f):
        """Orders a local function is fixed to (not deciding by an Endian value)."""
        F = self.F
        o = named_order(last(F.nice(f)))
        if o:
            return {o}
        if f in self.memo:
            return self.memo[f]
        if f in self.busy or len(self.busy) > 3:
            return set()
        fn = F.fns.get(f)
        if fn and fn.get("in_trait") and f not in F.bodies:
            return set()
        b = F.bodies.get(f)
        if b is None or b.file.startswith(SELF_DESCRIBING):
            return set()
        self.busy.add(f)
        out = set()
        for bb, t in b.calls():
            c = self.call(b, t)
            if c and c[1] and self.allowed(b, bb) >= {BIG, LITTLE}:
                out |= c[1]
        self.busy.discard(f)
        if not self.busy:
            self.memo[f] = out
        return out

    # ---- which orders are possible at a block
    def endian_keys(self, b):
        """Expressions of the discriminants of Endian values that branches of b look at."""
        if b.id in self.keys:
            return self.keys[b.id]
        F, x = self.F, X.of(self.F, b)
        ks = {}

        def look(e):
            if not isinstance(e, tuple):
                return
            if e and e[0] == "discr" and e[1][0] != "agg" and len(e) == 3 and isinstance(e[2], int) and is_endian(F, e[2]):
                ks[e] = True
            for y in e:
                look(y)
        for bb in b.reach:
            t = b.blocks[bb]["t"]
            if t["k"] == "switch":
                look(x.op(t["d"]))
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and not s["p"][1] and F.types[b.lty(s["p"][0])]["k"] == "bool":
                    look(x.rv(s["r"], bb, s["p"][0]))
            if t["k"] == "call" and not t["d"][1] and F.types[b.lty(t["d"][0])]["k"] == "bool":
                look(x.call(t, bb))
        self.keys[b.id] = list(ks)
        return self.keys[b.id]

    def allowed(self, b, bb, depth=0):
        """Orders the data may have at block bb of b."""
        out = {BIG, LITTLE}
        for e in self.endian_keys(b):
            k = (b.id, e)
            if k not in self.rng:
                self.rng[k] = Ranges(self.F, b, e, start=((0, 2),))
            iv = self.rng[k].get(bb)
            vs = {v for a, z in iv for v in range(max(a, 0), min(z, 2) + 1)}
            out &= {o for o, v in ((BIG, 1), (LITTLE, 2)) if v in vs}
        # what encloses a closure, or calls a helper
        if b.kind == "closure":
            p = self.parent(b)
            if p:
                out &= self.allowed(*p)
        elif out == {BIG, LITTLE} and depth < 4:
            out &= self.called(b, depth)
        return out

    def called(self, b, depth):
        """Orders possible where private function b is called."""
        m, unk = inter.callers(self.F, self.C)
        fi = self.F.fns.get(b.id, {})
        sites = m.get(b.id)
        if b.kind != "fn" or fi.get("export") or b.id in unk or fi.get("trait") or fi.get("in_trait") or not sites or inter.public(self.F, b):
            return {BIG, LITTLE}
        out = set()
        for cb, bb, t in sites:
            if cb.id == b.id:
                return {BIG, LITTLE}
            # a local fn is taken to serve the order its callers are in only when a branch decides there
            out |= self.allowed(cb, bb, depth + 1)
        return out

    def parent(self, b):
        """(body, block) where closure b is made."""
        m = getattr(self, "_parents", None)
        if m is None:
            m = self._parents = {}
            for k, c in self.F.bodies.items():
                for bb in c.reach:
                    for s in c.blocks[bb]["s"]:
                        if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("ak") == "closure":
                            m[s["r"]["d"]] = (c, bb, s)
        p = m.get(b.id)
        return (p[0], p[1]) if p else None


def consumer(F, b, l, seen=()):
    """What an Endian constant put in local l is used for."""
    if (b.id, l) in seen:
        return set()
    out = set()
    if l == 0:
        fi = F.fns.get(b.id, {})
        fn = b.nice.split("::")[-1]
        m, unk = inter.callers(F, cg.get(F))
        if b.kind == "fn" and not fi.get("trait") and not fi.get("in_trait") and b.id not in unk and m.get(b.id) and len(seen) < 12:
            for cb, bb, t in m[b.id]:
                out |= {"return:" + fn} if t["d"][1] else consumer(F, cb, t["d"][0], ((b.id, l),))
        else:
            out.add("return:" + fn)
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s["k"] != "=":
                continue
            r = s["r"]

            def uses(o):
                return o["k"] in ("copy", "move") and o["p"][0] == l and not o["p"][1]
            if r["k"] == "use" and uses(r["o"]) or (r["k"] == "ref" and r["p"][0] == l and not r["p"][1]):
                out |= consumer(F, b, s["p"][0], seen + ((b.id, l),)) if not s["p"][1] else {field_name(F, b, s["p"])}
            elif r["k"] == "agg":
                for i, o in enumerate(r["ops"]):
                    if uses(o):
                        if r["ak"] == "adt" and r["d"].startswith("libopenraw::"):
                            a = F.adts[r["d"]]
                            out.add("%s.%s" % (last(r["d"]), a["v"][r.get("v") or 0]["f"][i]["n"]))
                        else:
                            out |= consumer(F, b, s["p"][0], seen + ((b.id, l),))
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            for o in t["a"]:
                if o["k"] in ("copy", "move") and o["p"][0] == l and not o["p"][1]:
                    f = t.get("res") or t.get("f") or "?"
                    n = last(F.nice(f))
                    if n in ("clone", "new", "replace", "into", "borrow", "deref", "branch", "from_residual", "Ok", "Some"):
                        out |= consumer(F, b, t["d"][0], seen + ((b.id, l),)) if n != "replace" else {"replace"}
                        continue
                    tt = [F.types[a]["s"] for a in t.get("ta") or () if isinstance(a, int)]
                    if n == "value_array" and tt and tt[0] in ("u8", "i8"):
                        continue
                    out.add(n)
    return out


def field_name(F, b, p):
    return "field"


# ---- provenance of entries and their directory

class Prov:
    def __init__(self, F, O):
        self.F, self.O = F, O

    def site(self, b):
        """(parent, block, call terminator, argument number, upvar operands) of closure b."""
        self.O.parent(b)
        p = self.O._parents.get(b.id)
        if not p:
            return None
        c, bb, s = p
        cl = s["p"][0]
        call = None
        for bb2 in c.reach:
            t = c.blocks[bb2]["t"]
            if t["k"] == "call":
                for i, o in enumerate(t["a"]):
                    if o["k"] in ("copy", "move") and o["p"][0] == cl and not o["p"][1]:
                        call = (bb2, t, i)
        return c, bb, call, s["r"]["ops"]

    def canon(self, b, o, depth=0):
        """Canonical origin of a value: follows copies, payloads, closures and their captures."""
        if depth > 24:
            return None
        if o["k"] not in ("copy", "move"):
            x = X.of(self.F, b).op(o)
            return ("const", str(x))
        return self.place(b, o["p"], depth)

    def place(self, b, p, depth):
        F = self.F
        l, proj = p[0], [e for e in p[1]]
        fl = [e for e in proj if e != "*" and not (not isinstance(e, str) and e[0] == "dc")]
        if b.kind == "closure" and l == 1 and fl:
            s = self.site(b)
            if not s:
                return None
            i = fl[0][1]
            if i >= len(s[3]):
                return None
            r = self.canon(s[0], s[3][i], depth + 1)
            return self.fields(r, b, fl[1:])
        if 1 <= l <= b.argc:
            if b.kind == "closure":
                s = self.site(b)
                if not s or not s[2]:
                    return None
                bb, t, i = s[2]
                if i != 1 or not t["a"]:
                    return None
                r = self.canon(s[0], t["a"][0], depth + 1)
                return self.fields(r, b, fl) if fl else r
            return self.fields(("param", b.id, l), b, fl)
        d = b.defs.get(l, [])
        if len(d) != 1:
            return None
        bb, i, rv = d[0]
        if rv["k"] == "call":
            r = self.call(b, rv, depth + 1)
            return self.fields(r, b, [e for e in fl if True][1:] if self.optlike(b, l) and fl else fl)
        if rv["k"] == "use":
            return self.fields(self.canon(b, rv["o"], depth + 1), b, fl)
        if rv["k"] == "ref":
            return self.fields(self.place(b, rv["p"], depth + 1), b, fl)
        if rv["k"] == "cast":
            return self.fields(self.canon(b, rv["o"], depth + 1), b, fl)
        if rv["k"] == "agg" and rv.get("ak") == "adt" and len(rv["ops"]) == 1 and self.optlike(b, l):
            return self.canon(b, rv["ops"][0], depth + 1)
        return None

    def optlike(self, b, l):
        k = self.F.types[b.lty(l)]
        return k["k"] == "adt" and (k["d"].endswith("Option") or k["d"].endswith("Result") or k["d"].endswith("ControlFlow"))

    def fields(self, r, b, fl):
        for e in fl:
            if r is None:
                return None
            if e[0] == "f":
                r = ("f", r, e[1])
            else:
                r = ("sel", r)
        return r

    def call(self, b, t, depth):
        F = self.F
        f = t.get("res") or t.get("f") or "?"
        n = last(F.nice(f))
        if f.startswith("libopenraw::"):
            if n == "entry" and len(t["a"]) == 2:
                return ("entry-of", self.canon(b, t["a"][0], depth))
            if n == "endian" and len(t["a"]) == 1:
                return ("endian-of", self.canon(b, t["a"][0], depth), self.F.types[self.strip(b.op_ty(t["a"][0]))]["s"])
            return ("call", n) + tuple(self.canon(b, a, depth) for a in t["a"])
        if n in ("and_then", "map", "or_else") and len(t["a"]) == 2:
            ty = b.op_ty(t["a"][1])
            if ty is not None and F.types[ty]["k"] == "closure" and n != "or_else":
                c = F.bodies.get(F.types[ty]["d"])
                if c is not None:
                    return self.place(c, [0, []], depth + 1)
            return self.canon(b, t["a"][0], depth)
        if t["a"]:
            if n in ("ok_or", "ok_or_else", "map_err", "ok", "branch", "as_ref", "as_deref", "deref", "copied", "cloned", "unwrap", "expect", "filter", "inspect", "borrow", "clone", "from_output",
                     "iter", "into_iter", "next", "enumerate", "skip", "take", "values", "rev"):
                return self.canon(b, t["a"][0], depth)
        return ("ext", n, b.id, id(t))

    def strip(self, t):
        while t is not None and self.F.types[t]["k"] in ("ref", "ptr"):
            t = self.F.types[t]["t"]
        return t


def mentions(r, what):
    if not isinstance(r, tuple):
        return False
    return (r and r[0] == what) or any(mentions(y, what) for y in r)


def unknown(r):
    if r is None:
        return True
    return isinstance(r, tuple) and any(unknown(y) for y in r if y is None or isinstance(y, tuple))


def run(F, R):
    R.rule("branch-order", "where control flow depends on an Endian value, an operation fixed to one byte order is reached only with the value that stands for that order")
    R.rule("order-passed-on", "in a function generic over its byte order, operations on the data use that parameter, not an order of their own")
    R.rule("fixed-order", "an operation fixed to a byte order, not selected by an Endian value, is one whose format defines that order")
    R.rule("named-order", "a local function or type named after a byte order (be, le) only uses operations of that order")
    R.rule("declared-order", "a byte-order mark II yields Endian::Little and MM Endian::Big, wherever a mark is recognised")
    R.rule("order-constants", "an Endian constant is passed or stored only where the format defines the order")
    R.rule("order-type", "EndianType::ENDIAN is Little for LittleEndian and Big for BigEndian, and a directory remembers the order it was read with")
    R.rule("entry-order", "a value of a directory entry is decoded with the order of the directory the entry was found in, or of the file's container")
    C = cg.get(F)
    O = Orders(F, C, R)
    tagged = set()
    P = Prov(F, O)
    live = C.reach(cg.roots(F, C))
    for k, b in F.bodies.items():
        if b.kind in ("promoted",):
            continue
        if b.kind not in ("const",) and k not in live:
            continue
        generic_order = order_param(F, b, O)
        for bb, t in b.calls():
            c = O.call(b, t)
            if not c or not c[1]:
                continue
            n, orders, prim = c
            where = "%s:%d" % (b.file, t["l"])
            al = O.allowed(b, bb)
            if generic_order and t.get("f", "").startswith(("byteorder::", "libopenraw::")) and any(F.types[a]["s"] in [s.split("::")[-1] and s for s in BO] for a in t.get("ta") or () if isinstance(a, int)):
                chk(R, "order-passed-on", False, "%s|%s" % (b.nice, n), "%s is told its byte order by %s but %s uses a fixed order" % (b.nice, generic_order, n), where)
            if al < {BIG, LITTLE}:
                wrong = {o for o in orders if o not in al}
                if not al:
                    continue
                chk(R, "branch-order", not wrong, "%s|%s" % (b.nice, n), "%s: %s decodes as %s data that is %s here" % (b.nice, n, "/".join(sorted(wrong)), "/".join(sorted(al))), where)
                continue
            o1 = named_order(last(b.nice.split("::{closure")[0])) or impl_order(F, b)
            if o1:
                chk(R, "named-order", orders <= {o1}, "%s|%s" % (b.nice, n), "%s is named after %s order but %s is %s" % (b.nice, o1, n, "/".join(sorted(orders))), where)
                continue
            if al == {BIG, LITTLE} and prim:
                want = fixed(b.file, n)
                for (f, tag), o in TAGGED.items():
                    if b.file == f and about(F, C, b, bb, tag):
                        want = o
                        tagged.add((f, tag))
                if want == "either":
                    R.ok("fixed-order")
                    continue
                # a call of a local helper is judged inside the helper unless its name or type argument has the order
                chk(R, "fixed-order", want is not None and orders == {want}, "%s|%s|%s" % (b.file, norm_name(n), "/".join(sorted(orders))),
                        "%s: %s is fixed to %s order%s" % (b.nice, n, "/".join(sorted(orders)), "" if want is None else ", the format has %s" % want), where)
        if generic_order:
            R.ok("order-passed-on")
        consts(F, R, b)
        entries(F, R, b, P)
    for f, tag in sorted(set(TAGGED) - tagged):
        chk(R, "fixed-order", False, "%s|tag %#x" % (f, tag), "the values of tag %#x are %s, but nothing read for that tag is" % (tag, TAGGED[(f, tag)]), f)
    for (file, c), vs in sorted(CONSTS.items()):
        chk(R, "order-constants", (file, c) in USED, "%s|%s|missing" % (file, c), "the format fixes the order of %s to %s, but no constant says so any more" % (c, "/".join(vs)), file)
    marks(F, R, live)
    order_types(F, R)
    R.floor("branch-order", 40)
    R.floor("fixed-order", 15)
    R.floor("order-passed-on", 8)
    R.floor("declared-order", 5)
    R.floor("entry-order", 15)


def impl_order(F, b):
    fn = F.fns.get(b.id.split("::{closure")[0])
    if fn and fn.get("self") is not None:
        k = F.types[fn["self"]]
        if k["k"] == "adt" and k["d"].startswith("libopenraw::"):
            return named_order(k["d"].rsplit("::", 1)[1])
    return None


def order_param(F, b, O):
    """Name of a type parameter of b bound to be a byte order."""
    for p in (b.j.get("g") or ()) if hasattr(b, "j") else ():
        pass
    for bb, t in b.calls():
        f = t.get("f") or ""
        ta = [F.types[a] for a in t.get("ta") or () if isinstance(a, int)]
        if f.startswith("byteorder::") and ta and ta[-1]["k"] == "param":
            return ta[-1]["s"]
    return None


def about(F, C, b, bb, tag, depth=0):
    """The block runs only for the tag: it has been compared with it here or by every caller."""
    x = X.of(F, b)
    for f in x.facts(bb):
        if f[0] == "Eq" and ("c", tag) in f[1:]:
            return True
    if depth > 2 or b.kind != "fn":
        return False
    m, unk = inter.callers(F, C)
    sites = m.get(b.id, [])
    return b.id not in unk and bool(sites) and all(about(F, C, cb, cbb, tag, depth + 1) for cb, cbb, t in sites)


def fixed(file, n):
    n = norm_name(n)
    for (p, m), o in FIXED.items():
        if file.startswith(p) and m in ("*", n):
            return o
    return None


def consts(F, R, b):
    if b.file == "src/container.rs" or b.kind == "const":
        return
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s["k"] != "=":
                continue
            r = s["r"]
            if r["k"] == "agg" and r.get("d") == ENDIAN:
                v = r.get("n") or F.adts[ENDIAN]["v"][r["v"]]["n"]
                if v == "Unset":
                    continue
                if not s["p"][1]:
                    cs = consumer(F, b, s["p"][0])
                else:
                    cs = {"field"}
                judge(F, R, b, v, cs, s["l"])
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            for o in t["a"]:
                if is_endian(F, b.op_ty(o)):
                    x = X.of(F, b).op(o)
                    v = None
                    if x[0] == "agg":
                        v = F.adts[ENDIAN]["v"][x[2]]["n"]
                    if v in ("Big", "Little"):
                        f = t.get("res") or t.get("f") or "?"
                        n = last(F.nice(f))
                        tt = [F.types[a]["s"] for a in t.get("ta") or () if isinstance(a, int)]
                        if n in ("eq", "ne", "clone", "new", "replace", "into", "borrow", "deref", "branch", "from_residual") or not f.startswith("libopenraw::") or n == "value_array" and tt and tt[0] in ("u8", "i8"):
                            continue
                        judge(F, R, b, v, {n}, t["l"])


def judge(F, R, b, v, cs, line):
    for c in cs:
        USED.add((b.file, c))
        if c in ("eq", "ne", "fmt", "new_debug", "new_display"):
            continue
        if marks_fn(F, b):
            continue
        ok = v in CONSTS.get((b.file, c), ())
        chk(R, "order-constants", ok, "%s|%s|%s" % (b.file, c, v), "%s gives %s the fixed order %s" % (b.nice, c, v), "%s:%d" % (b.file, line))


def mark_of(v):
    if isinstance(v, (bytes, str)):
        s = v if isinstance(v, str) else v.decode("latin1")
        return {"II": "Little", "MM": "Big"}.get(s[:2])
    if isinstance(v, (list, tuple)) and len(v) >= 2 and all(isinstance(c, int) for c in v[:2]):
        return {(73, 73): "Little", (77, 77): "Big"}.get(tuple(v[:2]))
    return None


def const_mark(e):
    if not isinstance(e, tuple):
        return None
    if e and e[0] == "c":
        v = e[1]
        if isinstance(v, str):
            m = re.match(r"^\[?\(?(\d+), (\d+)", v)
            if m:
                return mark_of((int(m.group(1)), int(m.group(2))))
        return mark_of(v)
    if e and e[0] == "agg" and e[1] == "array":
        return mark_of([y[1] for y in e[3] if y[0] == "c"])
    return None


def find_marks(e, out):
    if isinstance(e, tuple):
        m = const_mark(e)
        if m:
            out.add(m)
        for y in e:
            find_marks(y, out)


_mf = {}


def mark_edges(F, b):
    """Edges of b taken when a byte-order mark has been recognised: (from, to) -> variant."""
    if b.id in _mf:
        return _mf[b.id]
    x = X.of(F, b)
    out = {}
    for bb in b.reach:
        t = b.blocks[bb]["t"]
        if t["k"] != "switch":
            continue
        e = x.op(t["d"])
        truth = True
        while e[0] == "un" and e[1] == "Not":
            e, truth = e[2], not truth
        if e[0] == "bin" and e[1] in ("Eq", "Ne") or e[0] == "call" and e[1] == "starts_with":
            if e[1] == "Ne":
                truth = not truth
            ms = set()
            for y in e[2:]:
                find_marks(y, ms)
            if len(ms) == 1:
                for v, y in list(t["v"]) + [(None, t["o"])]:
                    tv = bool(int(v)) if v is not None else not any(int(w) for w, _ in t["v"]) if len(t["v"]) == 1 else None
                    if v is None:
                        tv = {True, False} - {bool(int(w)) for w, _ in t["v"]}
                        tv = tv.pop() if len(tv) == 1 else None
                    if tv == truth:
                        out[(bb, y)] = ms.copy().pop()
                continue
        # a byte of an array pattern
        k = F.types[b.op_ty(t["d"])]["s"] if b.op_ty(t["d"]) is not None else ""
        if k == "u8":
            for v, y in t["v"]:
                if int(v) == 73:
                    out[(bb, y)] = "Little"
                elif int(v) == 77:
                    out[(bb, y)] = "Big"
    _mf[b.id] = out
    return out


def marks_fn(F, b):
    return bool(mark_edges(F, b))


def marks(F, R, live):
    """Every Endian constant made in a function that recognises marks comes after the mark of that order."""
    for k, b in F.bodies.items():
        if k not in live:
            continue
        me = mark_edges(F, b)
        if not me:
            continue
        # labels of the last recognised mark on any path
        st = {0: {None}}
        work = [0]
        while work:
            bb = work.pop()
            for s in b.succ[bb]:
                lab = {me[(bb, s)]} if (bb, s) in me else st[bb]
                if not lab <= st.get(s, set()):
                    st[s] = st.get(s, set()) | lab
                    work.append(s)
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == ENDIAN:
                    v = F.adts[ENDIAN]["v"][s["r"]["v"]]["n"]
                    if v == "Unset":
                        continue
                    chk(R, "declared-order", st.get(bb, set()) <= {v}, "%s|%s" % (b.nice, v), "%s takes the order for %s after recognising %s" % (b.nice, v, "/".join(sorted(str(z) for z in st.get(bb, ())))),
                            "%s:%d" % (b.file, s["l"]))


def order_types(F, R):
    n = 0
    for k, b in F.bodies.items():
        if b.kind == "const" and last(b.nice) == "ENDIAN":
            pass
    for im in F.impls:
        if im.get("trait") and im["trait"].endswith("container::EndianType"):
            s = F.types[im["self"]]["s"]
            want = {"byteorder::LittleEndian": "Little", "byteorder::BigEndian": "Big"}.get(s)
            for it in im["items"]:
                if it[0] == "ENDIAN":
                    n += 1
                    v = const_variant(F, it[1])
                    chk(R, "order-type", v == want, "ENDIAN|%s" % s, "ENDIAN of %s is %s" % (s, v), "src/container.rs")
    chk(R, "order-type", n == 2, "ENDIAN impls", "EndianType is implemented for the two byte orders (%d found)" % n, "src/container.rs")
    # Dir { endian }: E::ENDIAN, or the parameter
    a = next((d for d in F.adts if d.endswith("tiff::dir::Dir")), None)
    i = next((j for j, f in enumerate(F.adts[a]["v"][0]["f"]) if f["n"] == "endian"), None) if a else None
    m = 0
    if i is None:
        R.bad("order-type", "Dir.endian", "Dir has no endian field any more", "src/tiff/dir.rs")
        return
    for k, b in F.bodies.items():
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == a:
                    x = X.of(F, b)
                    o = s["r"]["ops"][i]
                    e = x.op(o)
                    ok = e[0] == "p" and is_endian(F, b.lty(e[1])) or e[0] == "cdef" and e[1].endswith("EndianType::ENDIAN") or o["k"] == "const" and str(o.get("def", "")).endswith("ENDIAN") or e[0] == "call@" and last(F.nice(e[2])) == "clone"
                    m += 1
                    chk(R, "order-type", ok, "Dir.endian|%s" % b.nice, "%s makes a directory whose byte order is %s" % (b.nice, e[0]), "%s:%d" % (b.file, s["l"]))


def const_variant(F, path):
    c = F.consts.get(path)
    v = c.get("v") if c else None
    if v is not None:
        pv = mir.pyval(v)
        if isinstance(pv, int):
            for z in F.adts[ENDIAN]["v"]:
                if z["discr"] == pv:
                    return z["n"]
        s = str(pv)
        for n in ("Big", "Little", "Unset"):
            if n in s:
                return n
    b = F.bodies.get(path)
    if b is not None:
        e = X.of(F, b).local(0)
        if e[0] == "agg":
            return F.adts[ENDIAN]["v"][e[2]]["n"]
    return None


def entries(F, R, b, P):
    for bb, t in b.calls():
        f = t.get("res") or t.get("f") or ""
        if not f.startswith("libopenraw::") or len(t["a"]) < 2:
            continue
        t0 = P.strip(b.op_ty(t["a"][0])) if b.op_ty(t["a"][0]) is not None else None
        if t0 is None or not F.types[t0]["s"].endswith("tiff::entry::Entry") :
            continue
        for o in t["a"][1:]:
            if not is_endian(F, b.op_ty(o)):
                continue
            n = last(F.nice(f))
            ce, cd = P.canon(b, o), P.canon(b, t["a"][0])
            tt = [F.types[a]["s"] for a in t.get("ta") or () if isinstance(a, int)]
            if n == "value_array" and tt and tt[0] in ("u8", "i8"):
                continue
            if dbg:
                print(b.file, t["l"], n, ce, cd)
            v = X.of(F, b).op(o)
            if v[0] == "agg" and v[1].startswith(ENDIAN):
                # a container with an order of its own
                chk(R, "entry-order", False, "%s|%s|constant" % (b.nice, n), "%s decodes the values of an entry with the fixed order %s" % (b.nice, v[1].rsplit("::")[-1]), "%s:%d" % (b.file, t["l"]))
                continue
            if not ce or not cd or unknown(ce) or unknown(cd):
                R.note("entry-order: %s:%s not traced" % (b.file, n))
                continue
            if ce[0] == "endian-of" and cd[0] == "entry-of" and "dyn" not in ce[2] and ce[2].endswith("::Dir"):
                chk(R, "entry-order", ce[1] == cd[1], "%s|%s" % (b.nice, n), "%s decodes an entry of %s with the order of %s" % (b.nice, cd[1], ce[1]), "%s:%d" % (b.file, t["l"]))
            else:
                R.ok("entry-order")


dbg = False
if __name__ == "__main__":
    pass
