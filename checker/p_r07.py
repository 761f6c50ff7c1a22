"""R07: an I/O failure is never silently dropped.

For every call that seeks or reads, directly or through functions of the crate, and reports how that went in a Result, the
function is followed under the assumption that the call failed: the branches taken are those of a failed Result, of the None
made of it, of the false of is_ok, and so on.  On those paths the result has to be looked at or passed on, and what the
failed call should have delivered must not be used.
"""
import ctx
from expr import X, last
from term import callee
import inter

READS = ("io::read::Read::", "io::seek::Seek::", "io::ReadBytesExt::", "io::buf_read::BufRead::", "io::Read::", "io::Seek::", "io::BufRead::")
SKIPS = {"map", "and_then", "inspect", "filter", "is_some_and", "is_ok_and", "and"}     # the closure does not run on a failure
NOPOS = {"stream_position", "peek", "remaining", "seek_relative_to_start"}


def external_read(f):
    """A reading or seeking operation of a library."""
    if not f or f.startswith("libopenraw"):
        return False
    if f.startswith("bitreader::") or "fallible_collections::vec::std_io" in f:
        return True
    return any(r in f for r in READS) or is_copy(f)


def is_copy(f):
    return bool(f) and f.split("::")[0] in ("std", "alloc", "core") and "::io::" in f and last(f) == "copy"


def kind(F, ty):
    t = F.types[ty]
    if t["k"] == "adt":
        if t["d"].endswith("result::Result"):
            return "result"
        if t["d"].endswith("option::Option"):
            return "option"
        if t["d"].endswith("ControlFlow"):
            return "flow"
    return None


class Io:
    def __init__(self, F):
        self.F = F
        self.G = ctx.get(F)
        self.set = set()
        self.memo = {}
        ch = True
        cand = [k for k, b in F.bodies.items() if b.kind in ("fn", "closure") and kind(F, b.lty(0)) == "result"]
        while ch:
            ch = False
            for k in cand:
                if k not in self.set and any(self.fallible(F.bodies[k], t) for _, t in F.bodies[k].calls()):
                    self.set.add(k)
                    ch = True

    def closures(self, b, t):
        """Closures and functions given to the call."""
        out = []
        for o in t["a"]:
            ty = b.op_ty(o)
            if ty is not None and self.F.types[ty]["k"] in ("closure", "fndef"):
                k = self.F.types[ty]
                out.append((k.get("res") or k["d"], o))
        return out

    def local_targets(self, t):
        f, res = t.get("f"), t.get("res")
        if res and res != "virtual" and res in self.F.bodies:
            return [res]
        if res == "virtual" or (f and f in self.F.impl_of):
            return [i for i, _ in self.F.impl_of.get(f, ())] + ([f] if f in self.F.bodies else [])
        return [f] if f in self.F.bodies else []

    def fallible(self, b, t):
        """The call performs I/O and reports in a Result how that went."""
        d = b.place_ty(t["d"])
        if d is None or kind(self.F, d) != "result":
            return False
        loc = self.local_targets(t)
        if loc and t.get("res") in loc:
            return t["res"] in self.set
        if external_read(t.get("f")) or external_read(t.get("res")):
            return True
        if loc:
            return any(x in self.set for x in loc)
        return any(c in self.set for c, _ in self.closures(b, t))

    # ------------------------------------------------------------ which reader, which buffers
    def root(self, b, o, n=0):
        """Where the operand's object lives: local (or parameter) and fields, and the accessor that lent it."""
        if o["k"] not in ("copy", "move") or n > 14:
            return None
        l, p = o["p"]
        fl = tuple(q[1] for q in p if q != "*" and q[0] == "f")
        d = b.defs.get(l, [])
        if l > b.argc and len(d) == 1:
            r = d[0][2]
            q = None
            if r["k"] in ("ref", "rawptr"):
                q = self.root(b, {"k": "copy", "p": r["p"]}, n + 1)
            elif r["k"] in ("use", "cast") and r["o"]["k"] in ("copy", "move") and self.F.types[b.lty(l)]["k"] in ("ref", "ptr"):
                q = self.root(b, r["o"], n + 1)
            elif r["k"] == "call" and r["a"]:
                m = last(self.F.nice(callee(r) or "?"))
                if m in ("deref", "deref_mut", "by_ref", "as_mut", "as_mut_slice", "borrow_mut", "borrow", "as_ref", "index_mut", "get_mut", "index", "split_at_mut"):
                    q = self.root(b, r["a"][0], n + 1)
                elif "borrow" in m or "view" in m:
                    q = self.root(b, r["a"][0], n + 1)
                    if q:
                        q = (q[0], q[1] + (m,))
            if q:
                return (q[0], q[1] + fl)
        return (l, fl)

    def is_buffer(self, ty):
        t = self.F.types[ty]
        if t["k"] != "ref" or not t["mut"]:
            return False
        t = self.F.types[t["t"]]
        if t["k"] in ("slice", "array"):
            e = t["t"]
        elif t["k"] == "adt" and t["d"].endswith("vec::Vec"):
            e = t["a"][0]
        else:
            return False
        return self.F.types[e]["k"] in ("int", "float", "bool", "param")

    def all_or_nothing(self, b, t):
        """The functions called change nothing of what they are lent unless they succeed (so that a dropped failure leaves
        the affected item absent)."""
        loc = self.local_targets(t)
        return bool(loc) and all(self.commits_last(k) for k in loc if k in self.set)

    def commits_last(self, k):
        b = self.F.bodies[k]
        lent = []
        for l in range(1, b.argc + 1):
            ty = self.F.types[b.lty(l)]
            if ty["k"] == "ref" and ty["mut"]:
                if self.is_stream(b.lty(l)):
                    return False
                lent.append(l)
            elif ty["k"] == "ref" and self.is_stream(ty["t"]):
                return False
        if not lent:
            return True
        effects, fails = [], []
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and "*" in s["p"][1] and self.root(b, {"k": "copy", "p": s["p"]})[0] in lent:
                    effects.append(bb)
            t = b.blocks[bb]["t"]
            if t["k"] != "call":
                continue
            rs = [self.root(b, o) for o in t["a"]]
            touched = any(r and r[0] in lent for r in rs)
            if self.fallible(b, t):
                fails.append(bb)
            if touched:
                if kind(self.F, b.place_ty(t["d"])) == "result" and not (self.local_targets(t) and all(self.commits_last(x) for x in self.local_targets(t))):
                    return False
                if last(self.F.nice(callee(t) or "?")) not in ("len", "is_empty", "iter", "deref", "contains", "get"):
                    effects.append(bb)
        for e in effects:
            after = set()
            for s in b.succ[e]:
                after |= b.reachable_from(s)
            if any(f in after for f in fails):
                return False
        return True

    def buffers(self, b, t):
        out = []
        for i, o in enumerate(t["a"]):
            ty = b.op_ty(o)
            if ty is None:
                continue
            if i > 0 and self.is_buffer(ty) or i == 0 and self.is_buffer(ty) and self.local_targets(t):
                r = self.root(b, o)
                if r:
                    out.append(r)
        for c, o in self.closures(b, t):
            if c in self.set:
                out += [r for r, ty in self.captured(b, o) if self.is_buffer(ty)]
        return out

    def captured(self, b, o):
        """Objects a closure given as operand holds: (root, type)."""
        out = []
        if o["k"] in ("copy", "move") and not o["p"][1]:
            for bb, i, r in b.defs.get(o["p"][0], []):
                if r["k"] == "agg" and r["ak"] == "closure":
                    for q in r["ops"]:
                        if q["k"] in ("copy", "move"):
                            z = self.root(b, q)
                            if z:
                                out.append((z, b.op_ty(q)))
        return out

    def reader(self, b, t):
        """The stream the call works on."""
        f = t.get("f")
        if (external_read(f) or external_read(t.get("res"))) and t["a"]:
            return self.root(b, t["a"][0])
        for o in t["a"]:
            ty = b.op_ty(o)
            if ty is None:
                continue
            k = self.F.types[ty]
            if k["k"] == "ref" and k["mut"] and self.is_stream(k["t"]):
                return self.root(b, o)
        return None

    def is_stream(self, ty):
        k = self.F.types[ty]
        if k["k"] == "ref" and k["mut"]:
            return self.is_stream(k["t"])
        if k["k"] == "adt":
            return k["d"].endswith("io::View") or k["d"].endswith("RefMut") or k["d"].endswith("Take") or k["d"].endswith("Cursor") or "BMFFBox" in k["d"] or k["d"].endswith("BitReader") or k["d"].endswith("BufReader")
        if k["k"] == "dyn":
            return any("Read" in d or "Seek" in d or "RawFileHandle" in d for d in k["d"])
        if k["k"] == "param":
            return True
        return False

    def absolute(self, b, t):
        """The call places the stream at a position of its own."""
        f = t.get("f") or ""
        n = last(f)
        if n == "rewind":
            return True
        if n in NOPOS or n.startswith("peek"):
            return None      # neither reads nor moves
        if is_copy(f) and any("Sink" in self.F.types[a]["s"] for a in t.get("ta") or () if isinstance(a, int)):
            return None      # what is read is thrown away
        if n == "seek" and len(t["a"]) > 1:
            e = X.of(self.F, b).op(t["a"][1])
            if e[0] == "agg" and len(e) > 2:
                return e[2] != 2
            return not (e[0] == "call")
        loc = [x for x in self.local_targets(t) if x == t.get("res") or not external_read(f)]
        if loc:
            rs = [self.starts_with_seek(x) for x in loc]
            return False if False in rs else (True if True in rs else None)
        return False

    def starts_with_seek(self, k):
        """True: every path of the function that reads places its stream before; False: some path does not;
        None: nothing is read but to be thrown away."""
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        b = self.F.bodies[k]
        st, seen, res = [0], set(), None
        while st and res is not False:
            bb = st.pop()
            if bb in seen:
                continue
            seen.add(bb)
            t = b.blocks[bb]["t"]
            if t["k"] == "call" and self.touches(b, t):
                a = self.absolute(b, t)
                if a is not None:
                    res = a
                    continue
            st += b.succ[bb]
        self.memo[k] = res
        return res

    def touches(self, b, t):
        d = b.place_ty(t["d"])
        if d is None or kind(self.F, d) != "result":
            return False
        if external_read(t.get("f")) or external_read(t.get("res")):
            return True
        return any(x in self.set for x in self.local_targets(t)) and self.reader(b, t) is not None


class World:
    """The paths of a body after the call at bb failed."""

    def __init__(self, io, b, bb):
        self.io, self.F, self.b, self.bb = io, io.F, b, bb
        self.x = X.of(io.F, b)
        self.t = b.blocks[bb]["t"]
        self.examined = False
        self.found = []
        self.buffers = io.buffers(b, self.t)
        self.reader = io.reader(b, self.t)
        if self.io.absolute(b, self.t) is None and last(callee(self.t) or "") in NOPOS or last(callee(self.t) or "").startswith("peek"):
            self.reader = None
        self.payload = self.payload_locals()

    def bad(self, rule, what, line):
        if (rule, what) not in [(r, w) for r, w, _ in self.found]:
            self.found.append((rule, what, line))

    def payload_locals(self):
        """Locals that receive the value of a successful call as it is."""
        out = set()
        for l, ds in self.b.defs.items():
            if len(ds) < 2 or l == 0:
                continue
            for bb, i, r in ds:
                if r["k"] == "use":
                    e = self.x.op(r["o"])
                    if self.is_payload(e):
                        out.add(l)
        return out

    def is_payload(self, e, n=0):
        if n > 6 or not isinstance(e, tuple) or len(e) < 2:
            return False
        if e[0] == "call@" and e[1] == self.bb:
            return n > 0
        if e[0] in ("f", "down", "cast", "some") and isinstance(e[1], tuple):
            return self.is_payload(e[1], n + 1)
        return False

    def run(self):
        if self.t.get("t") is None:
            return
        st = frozenset()
        d = self.t["d"]
        if d[1]:
            self.examined = True      # stored in a structure
            return
        start = (self.t["t"], frozenset({(d[0], "F")}) | {("lost", True)})
        if d[0] == 0:
            self.examined = True
        seen, work, per = set(), [start], {}
        while work:
            n = work.pop()
            if n in seen:
                continue
            c = per[n[0]] = per.get(n[0], 0) + 1
            if c > 12:       # forget the constants (drop flags and the like), then the rest
                n = (n[0], frozenset((a, v) for a, v in n[1] if v == "F" and c < 40 or v is True or isinstance(v, tuple) and v[0] == "clo"))
                if n in seen:
                    continue
            seen.add(n)
            if len(seen) > 20000:
                self.bad("undecided", "too many paths", self.t["l"])
                break
            work += self.step(*n)

    def tag(self, st, o):
        """What is known of an operand."""
        if o["k"] == "const":
            import mir
            v = o.get("v")
            v = mir.pyval(v) if v is not None else None
            return ("b", v) if isinstance(v, (bool, int)) else None
        l, p = o["p"]
        p = [q for q in p if q != "*"]
        if p:
            # the error inside the failed result
            return st.get(l) if st.get(l) in ("F", "E") and p[0][0] == "dc" else None
        return st.get(l)

    def uses_buffer(self, o):
        if o["k"] not in ("copy", "move"):
            return False
        l = o["p"][0]
        return any(l == r[0] and r[1] == tuple(q[1] for q in o["p"][1] if q != "*" and q[0] == "f")[:len(r[1])] for r in self.buffers)

    def step(self, bb, st0):
        F, b = self.F, self.b
        st = dict(st0)
        blk = b.blocks[bb]
        for s in blk["s"]:
            if s["k"] != "=":
                continue
            p, r = s["p"], s["r"]
            val = None
            k = r["k"]
            if k in ("use", "cast"):
                val = self.tag(st, r["o"])
                if val is not None and r["o"]["k"] == "const":
                    val = val if F.types[r["o"]["t"]]["k"] in ("bool", "int") else None
                if self.uses_buffer(r["o"]) and not st.get(("ow", r["o"]["p"][0])):
                    self.bad("buffer-after-failure", "uses %s after the call that should have filled it failed" % (b.lname(r["o"]["p"][0]) or "the buffer"), s["l"])
            elif k == "ref":
                l, pr = r["p"]
                if not [q for q in pr if q != "*"]:
                    val = st.get(l)
                    if val is not None and val[0] == "b":
                        val = None
            elif k == "discr":
                l, pr = r["p"]
                if not [q for q in pr if q != "*"] and st.get(l) in ("F", "E"):
                    kd = kind(F, F.strip_ref(b.lty(l)))
                    val = ("b", {"result": 1, "option": 0, "flow": 1}.get(kd, 1))
                    if st.get(l) == "F":
                        self.examined = True
            elif k == "un" and r.get("op") == "Not":
                v = self.tag(st, r.get("o") or r.get("a"))
                if v is not None and v[0] == "b":
                    val = ("b", not v[1])
            elif k == "agg":
                adt = r["ak"] == "adt" or r.get("d")
                fail = adt and kind(F, b.place_ty(p)) == {1: "result", 0: "option"}.get(r.get("v"))
                if fail:
                    val = "E"
                for o in r["ops"]:
                    if self.tag(st, o) == "F":
                        self.examined = True
                        if fail:
                            val = "F"
                if r["ak"] != "closure":
                    for o in r["ops"]:
                        if self.uses_buffer(o) and not st.get(("ow", o["p"][0])):
                            self.bad("buffer-after-failure", "uses %s after the call that should have filled it failed" % (b.lname(o["p"][0]) or "the buffer"), s["l"])
                elif r["ak"] == "closure" and not p[1] and any(self.uses_buffer(o) or self.refs_buffer(o) for o in r["ops"]):
                    val = ("clo", p[0])
            if not p[1]:
                st.pop(p[0], None)
                if val is not None:
                    st[p[0]] = val
                if self.reader is not None and p[0] == self.reader[0]:
                    st.pop("lost", None)         # another stream
                if any(p[0] == q[0] and not q[1] for q in self.buffers):
                    st[("ow", p[0])] = True
                if p[0] in self.payload and st.get("decided") and not (k == "use" and self.is_payload(self.x.op(r["o"]))) and F.types[b.lty(p[0])]["k"] in ("int", "float", "char"):
                    self.bad("made-up", "goes on with a made-up value for what could not be read", s["l"])
                if p[0] == 0 and val == "F":
                    self.examined = True
            else:
                if val == "F":
                    self.examined = True
        t = blk["t"]
        k = t["k"]
        out = []
        if k == "switch":
            v = self.tag(st, t["d"])
            if v is not None and v[0] == "b" and isinstance(v[1], (bool, int)):
                self.examined = True
                st["decided"] = True
                n = [x for c, x in t["v"] if int(c) == int(v[1])]
                out = n or [t["o"]]
            else:
                out = b.succ[bb]
        elif k == "call":
            out = self.call(bb, t, st)
        elif k == "return":
            for r in self.buffers:
                if 0 < r[0] <= b.argc and not self.returns_failure(bb, st) and not st.get(("ow", r[0])):
                    self.bad("buffer-after-failure", "returns as if it had succeeded although the buffer was not filled", t.get("l", b.line))
            out = []
        else:
            out = b.succ[bb]
        # what is dead matters no more
        f = frozenset((a, c) for a, c in st.items())
        return [(o, f) for o in out]

    def refs_buffer(self, o):
        r = self.io.root(self.b, o)
        return r is not None and any(r[0] == q[0] and r[1][:len(q[1])] == q[1] for q in self.buffers)

    def returns_failure(self, bb, st):
        kd = kind(self.F, self.b.lty(0))
        if kd is None:
            return False
        return st.get(0) in ("F", "E")

    def call(self, bb, t, st):
        F, b, io = self.F, self.b, self.io
        f = callee(t) or "?"
        n = last(F.nice(f))
        if t.get("t") is None:
            self.examined = self.examined or any(self.tag(st, o) == "F" for o in t["a"])
            return []
        d = t["d"]
        tags = [self.tag(st, o) for o in t["a"]]
        dk = kind(F, b.place_ty(d))
        val = None
        recv = tags and tags[0] == "F"
        ext = not io.local_targets(t)
        skip = False
        if recv:
            if n in ("unwrap", "expect", "unwrap_unchecked"):
                self.examined = True
                return []                   # a panic: R01's matter
            if n in ("is_ok", "is_some", "is_ok_and", "is_some_and"):
                val = ("b", 0)
            elif n in ("is_err", "is_none", "is_err_and", "is_none_or"):
                val = ("b", 1)
            elif n in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else"):
                self.examined = True
                self.default(t, n)
            elif n in ("or", "or_else"):
                self.examined = True
                if self.constant_alternative(t):
                    self.bad("made-up", "goes on with a made-up value for what could not be read", t["l"])
            elif n == "err":
                val = None
                self.examined = True
            elif n == "from_residual":
                val = "F"
                self.examined = True
            elif ext and dk:
                val = "F"
                if n in SKIPS:
                    self.examined = True
                skip = n in SKIPS
            elif n in ("drop", "deref", "fmt", "new_debug", "new_display"):
                pass
            else:
                self.examined = True
                if dk:
                    val = "F" if not ext and dk == "result" and n in ("context", "map_err", "with_context") else None
        elif any(v == "F" for v in tags):
            if n == "from_residual":
                val = "F"
            if n not in ("new_debug", "new_display"):
                self.examined = True
        if n == "from_residual" and val is None:
            val = "E"                        # a later failure is returned
        if val is None and tags and tags[0] == "E" and ext and dk and n not in ("or", "or_else", "replace", "take", "insert", "get_or_insert", "get_or_insert_with"):
            val = "E"
            skip = n in SKIPS
        # the buffer
        if bb != self.bb:
            fills = io.buffers(b, t) if io.fallible(b, t) else []
            for i, o in enumerate(t["a"]):
                r = io.root(b, o) if o["k"] in ("copy", "move") else None
                v = tags[i] if i < len(tags) else None
                hit = r is not None and any(r[0] == q[0] and r[1][:len(q[1])] == q[1] for q in self.buffers) and not st.get(("ow", r[0]))
                if v is not None and v[0] == "clo":
                    hit = not skip
                if hit and r in fills:
                    st[("ow", r[0])] = True
                elif hit and n not in ("deref", "deref_mut", "as_mut_slice", "as_mut", "index_mut", "clear", "drop", "len", "fill", "resize", "truncate"):
                    if not (self.buf_is_reader(r)):
                        self.bad("buffer-after-failure", "uses %s after the call that should have filled it failed" % (b.lname(r[0]) if r and b.lname(r[0]) else "the buffer"), t["l"])
        # the stream
        if self.reader is not None and st.get("lost") and io.touches(b, t):
            q = io.reader(b, t)
            if q is not None and q == self.reader and (bb != self.bb or True):
                a = io.absolute(b, t)
                if a is True:
                    st.pop("lost")
                elif a is False and n not in NOPOS:
                    self.bad("position-after-failure", "reads on (%s) from a stream whose position is not known after the failure" % n, t["l"])
                    st.pop("lost")
        if bb == self.bb:
            return []                        # the next failure of the same call is the same story
        if not d[1]:
            st.pop(d[0], None)
            if val is not None:
                st[d[0]] = val
            if d[0] == 0 and val == "F":
                self.examined = True
            if self.reader is not None and d[0] == self.reader[0]:
                st.pop("lost", None)
            if any(d[0] == q[0] and not q[1] for q in self.buffers):
                st[("ow", d[0])] = True
        elif val == "F":
            self.examined = True
        return [t["t"]]

    def buf_is_reader(self, r):
        return False

    def default(self, t, n):
        """unwrap_or and the like: the default must itself say that there is nothing."""
        F, b = self.F, self.b
        ty = b.place_ty(t["d"])
        k = F.types[ty]
        if F.fns.get(b.id, {}).get("sym"):
            return               # what the C API answers then is its own business (C03, C04)
        if k["k"] == "tuple" and not k["a"]:
            return
        if n == "unwrap_or_default" and self.iterator(k):
            return               # nothing to go through
        if kind(F, ty):
            if n in ("map_or", "unwrap_or") and len(t["a"]) > 1:
                e = self.x.op(t["a"][1])
                if e[0] == "agg" and kind(F, ty) == "option" and e[2] == 1 or e[0] == "agg" and kind(F, ty) == "result" and e[2] == 0:
                    self.bad("made-up", "goes on with a made-up value for what could not be read", t["l"])
            return
        if k["k"] == "bool":
            if n in ("map_or", "unwrap_or"):
                e = self.x.op(t["a"][1])
                if e == ("c", True):
                    self.bad("made-up", "goes on as if the call had succeeded", t["l"])
            return
        if n in ("unwrap_or_else", "map_or_else"):
            # an error value made of the error is an answer (a C error code)
            for c, o in self.io.closures(b, t)[:1]:
                cb = F.bodies.get(c)
                if cb is not None and not self.const_return(cb):
                    return
        self.bad("made-up", "goes on with a made-up value for what could not be read", t["l"])

    def iterator(self, k):
        return k["k"] == "adt" and any(im.get("trait", "") and im["trait"].endswith("traits::iterator::Iterator") and self.F.adt_path(im["self"]) == k["d"] for im in self.F.impls)

    def const_return(self, cb):
        x = X.of(self.F, cb)
        return all(self.is_const(x, r) for _, _, r in cb.defs.get(0, [])) if cb.defs.get(0) else True

    def is_const(self, x, r):
        if r["k"] == "use":
            return x.op(r["o"])[0] in ("c", "cdef", "const")
        if r["k"] == "agg":
            return all(x.op(o)[0] in ("c", "cdef", "const") for o in r["ops"])
        if r["k"] == "call":
            return last(self.F.nice(callee(r) or "?")) in ("default", "new")
        return False

    def constant_alternative(self, t):
        F, b = self.F, self.b
        if len(t["a"]) < 2:
            return False
        cs = self.io.closures(b, t)
        if cs:
            cb = F.bodies.get(cs[0][0])
            if cb is None:
                return False
            x = X.of(F, cb)
            kd = kind(F, cb.lty(0))
            good = {"option": 1, "result": 0}.get(kd)
            return any(r["k"] == "agg" and r.get("v") == good and all(x.op(o)[0] in ("c", "cdef", "const") for o in r["ops"]) for _, _, r in cb.defs.get(0, []))
        e = self.x.op(t["a"][1])
        kd = kind(F, b.op_ty(t["a"][1]))
        return e[0] == "agg" and e[2] == {"option": 1, "result": 0}.get(kd) and all(y[0] in ("c", "cdef", "const") for y in e[3])


TEXT = {
    "dropped": "the outcome of every call that seeks or reads is looked at, passed on or returned",
    "made-up": "no constant or default takes the place of a value that could not be read",
    "buffer-after-failure": "after a failed read the buffer it should have filled is not used before it is overwritten, nor handed to the caller as filled",
    "position-after-failure": "after a failed seek or read nothing is read from the same stream before it is placed anew",
    "short-read": "the number of bytes a partial read delivered is used",
    "undecided": "every failure can be followed to its end",
}


def run(F, R):
    for k in TEXT:
        R.rule(k, TEXT[k])
    io = Io(F)
    live = sorted({n[0] for n in io.G.nodes()})
    sites = 0
    for k in live:
        b = F.bodies[k]
        if b.kind not in ("fn", "closure"):
            continue
        for bb, t in b.calls():
            if not io.fallible(b, t):
                continue
            sites += 1
            w = World(io, b, bb)
            w.run()
            n = last(F.nice(callee(t)))
            arg = ""
            key = "%s|%s%s" % (inter.stable_name(b), n, arg)
            where = "%s:%s" % (b.file, t["l"])
            R.check(w.examined or io.all_or_nothing(b, t), "dropped", key, "%s drops the outcome of %s" % (b.nice, n), where)
            for rule in TEXT:
                if rule in ("dropped", "short-read"):
                    continue
                hits = [(m, l) for r, m, l in w.found if r == rule]
                R.check(not hits, rule, key, "%s: when %s fails, it %s" % (b.nice, n, hits[0][0] if hits else ""), "%s:%s" % (b.file, hits[0][1] if hits else t["l"]))
            if n in ("read", "read_vectored") and "io::read::Read::" in (t.get("f") or ""):
                R.check(used_payload(io, b, bb, t), "short-read", key, "%s ignores how much %s delivered" % (b.nice, n), where)
    R.floor("dropped", 300)


def used_payload(io, b, bb, t):
    """The count a successful read() reports is used, or the outcome is passed on whole."""
    l = t["d"][0]
    if l == 0 or t["d"][1]:
        return True
    w = World(io, b, bb)
    x = w.x

    def hit(o):
        if o is None or o["k"] not in ("copy", "move"):
            return False
        e = x.op(o)
        return w.is_payload(e) or contains(e, w)

    alias = {l}
    for u in b.reach:
        for s in b.blocks[u]["s"]:
            if s["k"] != "=":
                continue
            r = s["r"]
            if r["k"] == "use" and r["o"]["k"] in ("copy", "move") and not r["o"]["p"][1] and r["o"]["p"][0] in alias:
                alias.add(s["p"][0])
                if s["p"][0] == 0:
                    return True
            if r["k"] in ("bin", "agg") and any(hit(o) for o in ([r.get("a"), r.get("b")] if r["k"] == "bin" else r["ops"])):
                return True
            if r["k"] in ("use", "cast") and s["p"][0] == 0 and hit(r["o"]):
                return True
        q = b.blocks[u]["t"]
        if q["k"] == "switch" and hit(q["d"]):
            return True
        if q["k"] == "call" and u != bb:
            n = last(io.F.nice(callee(q) or "?"))
            for o in q["a"]:
                if o["k"] in ("copy", "move") and o["p"][0] in alias and not o["p"][1]:
                    if n not in ("branch", "map_err", "ok", "unwrap", "expect", "drop", "is_ok", "is_err"):
                        return True
                    alias.add(q["d"][0])
                    if q["d"][0] == 0:
                        return True
                elif hit(o):
                    return True
    return False


def contains(e, w, n=0):
    if not isinstance(e, tuple) or n > 8:
        return False
    return w.is_payload(e) or any(contains(y, w, n + 1) for y in e[1:] if isinstance(y, tuple))
