"""Values as expressions, and the facts that hold at a program point.

ex(operand) rebuilds the expression that defines a value from the definitions reaching it, looking through references,
copies and conversions that keep the value.  facts(bb) are the branch conditions every path to bb has taken, as relations
between such expressions.  Helper functions that only compute a value or only check one are looked into.
"""
import mir

IDENT = {"deref", "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "borrow", "borrow_mut", "as_bytes", "to_vec", "to_owned",
         "clone", "cloned", "copied", "as_deref", "as_deref_mut", "into_boxed_slice", "into_vec", "as_str", "as_mut_ptr", "as_ptr", "from_fn", "unsize", "by_ref"}
IDENT1 = {"into", "from", "try_from", "try_into"}  # numeric conversions
PURE = {"len", "is_empty", "min", "max", "unit_size", "saturating_sub", "saturating_add", "saturating_mul", "wrapping_sub", "wrapping_add", "wrapping_mul", "checked_add",
        "checked_sub", "checked_mul", "checked_div", "checked_rem", "abs", "unsigned_abs", "pow", "div_ceil", "abs_diff", "size_of", "count_ones", "leading_zeros", "next_power_of_two", "is_multiple_of",
        "swap_bytes", "to_be", "to_le", "rem_euclid", "div_euclid", "clamp", "get", "first", "last", "ok", "ok_or", "ok_or_else", "branch", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "map_err", "is_some", "is_none", "is_ok", "is_err", "split_at", "start", "end", "contains", "rows", "cols", "and_then", "map", "starts_with", "unwrap_unchecked", "unwrap_or_else", "filter", "map_or",
        "is_some_and", "is_ok_and", "is_none_or"}
NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
FLIP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
CMPF = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}


def last(n):
    n = n.split("::<")[0] if n.endswith(">") and "::<" in n else n
    return n.split("::")[-1].split("<")[0]


class X:
    """Expressions and facts of one body."""
    _all = {}

    def __init__(self, F, b):
        self.F, self.b = F, b
        self.memo = {}
        self._facts = None
        self._mutref = None
        self._busy = set()

    @classmethod
    def of(cls, F, b):
        k = (id(F), b.id)
        if k not in cls._all:
            cls._all[k] = cls(F, b)
        return cls._all[k]

    # ---- which locals can change behind a reference
    @property
    def mutref(self):
        """Locals that are borrowed mutably or partly assigned (so their value is not that of their definition)."""
        if self._mutref is None:
            m = set()
            for bb in self.b.reach:
                for s in self.b.blocks[bb]["s"]:
                    if s["k"] == "=":
                        if s["p"][1] and not self.through_ref(s["p"]):
                            m.add(s["p"][0])
                        r = s["r"]
                        if (r["k"] == "ref" and r["mut"]) or (r["k"] == "rawptr" and r.get("mut", True)):
                            if not self.through_ref(r["p"]):
                                m.add(r["p"][0])
                t = self.b.blocks[bb]["t"]
                if t["k"] == "call" and t["d"][1] and not self.through_ref(t["d"]):
                    m.add(t["d"][0])
            self._mutref = m
        return self._mutref

    def through_ref(self, p):
        return any(e == "*" for e in p[1])

    # ---- expressions
    def op(self, o):
        if o["k"] in ("copy", "move"):
            return self.place(o["p"])
        v = o.get("v")
        pv = mir.pyval(v) if v is not None else None
        if isinstance(pv, (int, bool, str, float)):
            return ("c", pv)
        if o.get("promoted") is not None and o.get("def"):
            pb = self.F.bodies.get("%s::promoted[%d]" % (o["def"], o["promoted"]))
            if pb is not None:
                e = X.of(self.F, pb).local(0)
                if not has_bad(e, ("l", "call@", "const", "p")) and depth_of(e) < 6:
                    return e
        if v is not None:
            if o.get("def"):
                return ("cdef", o["def"])
            try:
                hash(("c", pv))
                return ("c", pv)
            except TypeError:
                return ("c", repr(pv))
        if o.get("def"):
            return ("cdef", o["def"], o["t"])
        t = self.F.types[o["t"]]
        if t["k"] == "fndef":
            return ("fn", t.get("res") or t["d"])
        if t["k"] == "closure":
            return ("closure", t["d"])
        return ("const", o["t"], str(o.get("promoted")))

    def place(self, p):
        l, proj = p[0], p[1]
        e = self.local(l)
        cur = None
        for x in proj:
            e = self.proj(e, x)
        return e

    def proj(self, e, x):
        if x == "*":
            return e
        k = x if isinstance(x, str) else x[0]
        if k in ("f", "field"):
            i = x[1]
            if e[0] == "agg" and e[1] == "tuple" and i < len(e[3]):
                return e[3][i]
            if e[0] == "agg" and e[1] not in ("tuple", "array") and i < len(e[3]):
                return e[3][i]
            if e[0] == "ovf" and i == 0:
                return e[1]
            if e[0] == "down" and e[1][0] == "agg" and i < len(e[1][3]):
                return e[1][3][i]
            if e[0] == "down" and i == 0:
                return self.payload(e[1], e[2])
            return ("f", e, i)
        if k in ("dc", "v", "variant", "downcast"):
            return ("down", e, x[1])
        if k in ("i", "index"):
            return ("idx", e, self.local(x[1]))
        if k == "ci":
            return ("idx", e, ("c", x[1])) if not x[3] else ("cidx", e) + tuple(x[1:])
        return ("proj", e, str(x))

    def payload(self, e, variant):
        """The value inside Some/Ok/Continue of e."""
        if e[0] == "call":
            n = e[1]
            if n == "branch" and variant == 0:
                return self.payload(e[2], 99)
            if n in ("ok_or", "ok_or_else", "map_err", "ok", "filter", "copied", "cloned", "as_ref", "as_mut") and variant in (0, 1, 99):
                return self.payload(e[2], 99)
            if n in ("checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem"):
                return ("bin", {"checked_add": "Add", "checked_sub": "Sub", "checked_mul": "Mul", "checked_div": "Div", "checked_rem": "Rem"}[n], e[2], e[3])
            if n in ("try_from", "try_into"):
                return e[2]
            if n == "get" and len(e) == 4 and e[3][0] == "agg" and "Range" in e[3][1]:
                return ("call", "index", e[2], e[3])
            if n == "and_then" and len(e) == 4:
                r = self.closure_payload(e)
                if r is not None:
                    return r
            if n in ("first",):
                return ("idx", e[2], ("c", 0))
        if e[0] == "agg" and e[3]:
            return e[3][0]
        return ("some", e)

    def closure_map(self, e):
        """What the parameters of a closure given to an adaptor of option e stand for, outside the closure."""
        c = e[3]
        if c[0] == "fn":
            return {("p", 1): self.payload(e[2], 99)}
        mp = {("f", ("p", 1), i): a for i, a in enumerate(c[3] if c[0] == "agg" else ())}
        mp[("p", 2)] = self.payload(e[2], 99)
        return mp

    def closure_of(self, c):
        """The closure or function of the crate an adaptor is given, or None."""
        if c[0] == "agg" and c[1] == "closure" and c[2] in self.F.bodies:
            return c[2]
        if c[0] in ("fn", "closure") and c[1] in self.F.bodies:
            return c[1]
        return None

    def outside(self, c, e):
        """The expression over the parameters of closure c has a meaning outside it."""
        return c[0] == "fn" or not captures_env(e, len(c[3]) if c[0] == "agg" else 0)

    def closure_payload(self, e):
        """What is in the result of and_then, when it is the parameter of the closure or a part of it."""
        c = e[3]
        f = self.closure_of(c)
        if f is None:
            return None
        r = payload_summary(self.F, f)
        if r is None or not self.outside(c, r):
            return None
        return subst(r, self.closure_map(e))

    def local(self, l):
        if l in self.memo:
            return self.memo[l]
        b = self.b
        if 1 <= l <= b.argc:
            r = ("p", l)
            if l in b.defs or l in self.mutref:
                r = ("l", l)
            self.memo[l] = r
            return r
        if l in self._busy:
            return ("l", l)
        d = b.defs.get(l)
        if not d or len(d) != 1 or (l in self.mutref):
            r = ("l", l)
            if l in self.mutref and d and len(d) == 1:
                pass
            self.memo[l] = r
            return r
        self._busy.add(l)
        bb, i, rv = d[0]
        r = self.rv(rv, bb, l)
        self._busy.discard(l)
        if depth_of(r) > 14:
            r = ("l", l)
        self.memo[l] = r
        return r

    def init(self, l):
        """The defining expression of a local even when it is mutated later (its initial value)."""
        d = self.b.defs.get(l)
        if not d or len(d) != 1:
            return None
        return self.rv(d[0][2], d[0][0], l)

    def rv(self, r, bb, l):
        k = r["k"]
        if k == "use":
            return self.op(r["o"])
        if k in ("ref", "rawptr"):
            return self.place(r["p"])
        if k == "cast":
            x = self.op(r["o"])
            c = r["c"]
            if c.startswith("IntToInt"):
                if x[0] == "c" and isinstance(x[1], int):
                    return self.cast_const(x, r["t"])
                src = self.b.op_ty(r["o"])
                if widening(self.F, src, r["t"]):
                    return x
                return ("cast", self.F.tys(r["t"]), x)
            if c.startswith("IntToFloat") or c.startswith("FloatToInt") or c.startswith("FloatToFloat"):
                return ("cast", self.F.tys(r["t"]), x)
            return x
        if k == "bin":
            op = r["op"]
            a, c = self.op(r["a"]), self.op(r["b"])
            if op.endswith("WithOverflow"):
                return ("ovf", ("bin", op[:-12], a, c))
            op = op.replace("Unchecked", "")
            if a[0] == "c" and c[0] == "c" and isinstance(a[1], int) and isinstance(c[1], int):
                v = fold(op, a[1], c[1])
                if v is not None:
                    return ("c", v)
            return ("bin", op, a, c)
        if k == "un":
            x = self.op(r["a"] if "a" in r else r["o"])
            if r["op"] == "PtrMetadata":
                return self.length(x)
            return ("un", r["op"], x)
        if k == "discr":
            return ("discr", self.place(r["p"]), self.b.place_ty(r["p"]))
        if k == "agg":
            ak = r["ak"]
            nm = ak if ak in ("tuple", "array", "closure") else r.get("d", ak) + "::" + str(r.get("n"))
            return ("agg", nm, r.get("d") if nm == "closure" else r.get("v"), tuple(self.op(o) for o in r["ops"]))
        if k == "repeat":
            return ("repeat", self.op(r["o"]), r.get("n") if isinstance(r.get("n"), int) else None)
        if k == "call":
            return self.call(r, bb)
        return ("l", l)

    def cast_const(self, x, t):
        ty = self.F.types[t]
        return x

    def call(self, t, bb):
        f = t.get("res") or t.get("f")
        if f is None:
            return ("call@", bb, "?") + tuple(self.op(a) for a in t["a"])
        nice = self.F.nice(f)
        n = last(nice)
        args = [self.op(a) for a in t["a"]]
        if n in IDENT and len(args) == 1:
            return args[0]
        if n == "len" and len(args) == 1 and not (f in self.F.bodies):
            return self.length(args[0])
        if n in ("into", "from") and len(args) == 1 and t["a"]:
            at, rt = self.b.op_ty(t["a"][0]), self.b.place_ty(t["d"])
            if at is not None and is_num(self.F, at) and is_num(self.F, rt):
                return args[0]
            if at is not None and same_len(self.F, at, rt):
                return args[0]
        if n in CMPF and len(args) == 2 and f not in self.F.bodies:
            return ("bin", CMPF[n], args[0], args[1])
        if f.startswith("core::ops::arith") or f.startswith("core::ops::bit"):
            o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr", "bitand": "BitAnd", "bitor": "BitOr"}.get(n)
            if o and len(args) == 2:
                return ("bin", o, args[0], args[1])
        if not args and t.get("ta"):
            r = of_type(self.F, f, t)
            if r is not None:
                return r
        if f in self.F.bodies:
            s = summary(self.F, f)
            if s is not None:
                return subst(s, {("p", i + 1): a for i, a in enumerate(args)})
            if pure(self.F, f):
                return ("pure", f) + tuple(args)
            return ("call@", bb, f) + tuple(args)
        if n in ("index", "index_mut") and len(args) == 2:
            if args[1][0] == "agg" and args[1][1].endswith("RangeFull::RangeFull"):
                return args[0]
            if args[1][0] == "agg" and "Range" in args[1][1]:
                return ("call", "index", args[0], args[1])
            return ("idx", args[0], args[1])
        if n == "new" and len(args) == 2 and "RangeInclusive" in nice:
            return ("agg", "core::ops::range::RangeInclusive::RangeInclusive", 0, tuple(args))
        if n in PURE:
            if n == "contains" or n == "start":
                pass
            if n == "unwrap" or n == "expect":
                return self.payload(args[0], 99)
            return ("call", n) + tuple(args)
        return ("call@", bb, f) + tuple(args)

    def length(self, x):
        if x[0] == "repeat" and x[2] is not None:
            return ("c", x[2])
        if x[0] == "agg" and x[1] == "array":
            return ("c", len(x[3]))
        if x[0] == "c" and isinstance(x[1], str):
            return ("c", len(x[1].encode()))
        if x[0] == "call" and x[1] == "index" and x[3][0] == "agg":
            r, a = x[3][1], x[3][3]
            if r.endswith("Range::Range") and len(a) == 2:
                if a[0] == ("c", 0):
                    return a[1]
                if a[0][0] == "c" and a[1][0] == "c":
                    return ("c", a[1][1] - a[0][1])
                return ("bin", "Sub", a[1], a[0])
            if r.endswith("RangeTo::RangeTo"):
                return a[0]
            if r.endswith("RangeFrom::RangeFrom"):
                return ("bin", "Sub", self.length(x[2]), a[0])
            if r.endswith("RangeInclusive::RangeInclusive"):
                return ("bin", "Add", ("bin", "Sub", a[1], a[0]), ("c", 1))
        return ("len", x)

    # ---- facts
    def cond(self, e, truth):
        """Atoms implied by boolean expression e having the given truth value."""
        out = []
        if e[0] == "un" and e[1] == "Not":
            return self.cond(e[2], not truth)
        if e[0] == "bin" and e[1] in NEG:
            op = e[1] if truth else NEG[e[1]]
            out.append((op, e[2], e[3]))
        elif e[0] == "bin" and e[1] == "BitAnd" and truth:
            out += self.cond(e[2], True) + self.cond(e[3], True)
        elif e[0] == "bin" and e[1] == "BitOr" and not truth:
            out += self.cond(e[2], False) + self.cond(e[3], False)
        elif e[0] == "call" and e[1] == "is_empty" and len(e) == 3:
            ln = self.length(e[2])
            out.append(("Eq" if truth else "Ge", ln, ("c", 0 if truth else 1)))
        elif e[0] == "call" and e[1] in ("is_some", "is_ok"):
            out.append(("ok" if truth else "notok", e[2]))
            if truth:
                out += self.ok_facts(e[2])
        elif e[0] == "call" and e[1] in ("is_none", "is_err"):
            out.append(("notok" if truth else "ok", e[2]))
            if not truth:
                out += self.ok_facts(e[2])
        elif e[0] == "call" and e[1] in ("map_or", "is_some_and", "is_ok_and", "is_none_or"):
            other = {"is_none_or": ("c", 1), "map_or": e[3] if len(e) == 5 else None}.get(e[1], ("c", 0))
            if other is not None and other[0] == "c" and isinstance(other[1], (int, bool)) and bool(other[1]) != truth:
                # the closure has given the result
                out += [("ok", e[2])] + self.ok_facts(e[2]) + self.filter_facts(("call", e[1], e[2], e[-1]), truth)
        elif e[0] == "call" and e[1] == "contains" and truth and len(e) == 4 and e[2][0] == "agg" and "Range" in e[2][1]:
            r, a = e[2][1], e[2][3]
            if r.endswith("RangeInclusive") and len(a) >= 2:
                out += [("Ge", e[3], a[0]), ("Le", e[3], a[1])]
            elif r.endswith("Range::Range"):
                out += [("Ge", e[3], a[0]), ("Lt", e[3], a[1])]
            elif r.endswith("RangeFrom::RangeFrom"):
                out += [("Ge", e[3], a[0])]
        elif e[0] == "call" and e[1] == "is_multiple_of":
            out.append(("Eq" if truth else "Ne", ("bin", "Rem", e[2], e[3]), ("c", 0)))
        elif e[0] == "call" and e[1] == "starts_with" and truth and len(e) == 4:
            out.append(("Ge", self.length(e[2]), self.length(e[3])))
        elif e[0] == "call@" and e[2] in self.F.bodies:
            for a in bool_summary(self.F, e[2], truth):
                out.append(project(subst(a, {("p", i + 1): x for i, x in enumerate(e[3:])})))
        if e[0] == "l":
            out += self.flag_facts(e[1], truth)
        out.append(("true" if truth else "false", e))
        return out

    def flag_facts(self, l, truth):
        """A boolean local set to constants on different paths (&&, ||, matches!): facts of the only path giving this value."""
        ds = self.b.defs.get(l, [])
        if l in self.mutref or not ds:
            return []
        hits = []
        for bb, i, rv in ds:
            if rv["k"] == "use" and rv["o"]["k"] == "const":
                v = mir.pyval(rv["o"].get("v"))
                if bool(v) == truth:
                    hits.append((bb, []))
            elif rv["k"] == "call" or rv["k"] in ("bin", "un", "use"):
                e = self.rv(rv, bb, l)
                if e == ("l", l):
                    return []
                hits.append((bb, self.cond(e, truth) if depth_of(e) < 10 else []))
            else:
                return []
        if not hits or ("flag", l, truth) in self._busy:
            return []
        self._busy.add(("flag", l, truth))
        try:
            sets = []
            for bb, extra in hits:
                sets.append(set(self.raw_facts(bb)) | set(extra))
            r = sets[0]
            for s in sets[1:]:
                r = r & s
            return list(r)
        finally:
            self._busy.discard(("flag", l, truth))

    def ok_facts(self, e, variant=None):
        """Facts implied by an Option/Result expression being Some/Ok."""
        out = []
        if e[0] == "call":
            n = e[1]
            if n in ("branch", "ok_or", "ok_or_else", "map_err", "ok", "map", "and_then", "copied", "filter") and len(e) > 2:
                out += [("ok", e[2])] + self.ok_facts(e[2])
                if n == "filter" and len(e) == 4:
                    out += self.filter_facts(e)
                elif n == "and_then" and len(e) == 4 and self.closure_of(e[3]):
                    mp = self.closure_map(e)
                    mp[("ret",)] = self.payload(e, 99)
                    out += [project(subst(a, mp)) for a in ok_summary(self.F, self.closure_of(e[3])) if self.outside(e[3], a)]
            elif n == "checked_sub":
                out.append(("Ge", e[2], e[3]))
            elif n in ("checked_div", "checked_rem"):
                out.append(("Ne", e[3], ("c", 0)))
            elif n in ("first", "last", "split_first", "split_last"):
                out.append(("Ge", self.length(e[2]), ("c", 1)))
            elif n == "get" and len(e) == 4:
                if e[3][0] == "agg" and "Range" in e[3][1]:
                    a = e[3][3]
                    if e[3][1].endswith("Range::Range"):
                        out += [("Le", a[1], self.length(e[2])), ("Le", a[0], a[1])]
                    elif e[3][1].endswith("RangeFrom::RangeFrom"):
                        out.append(("Le", a[0], self.length(e[2])))
                    elif e[3][1].endswith("RangeTo::RangeTo"):
                        out.append(("Le", a[0], self.length(e[2])))
                else:
                    out.append(("Lt", e[3], self.length(e[2])))
        elif e[0] == "call@" and e[2] in self.F.bodies:
            mp = {("p", i + 1): x for i, x in enumerate(e[3:])}
            mp[("ret",)] = self.payload(e, 99)
            for a in ok_summary(self.F, e[2]):
                out.append(project(subst(a, mp)))
        return out

    def filter_facts(self, e, truth=True):
        """What the predicate of a filter says about what passes it."""
        c = e[3]
        f = self.closure_of(c)
        if f is None:
            return []
        mp = self.closure_map(e)
        return [subst(a, mp) for a in bool_summary(self.F, f, truth) if self.outside(c, a)]

    def edge_facts(self, bb, tgt):
        """Facts on the edge bb -> tgt of a switch."""
        t = self.b.blocks[bb]["t"]
        if t["k"] == "assert" and tgt == t["t"]:
            c = self.op(t["c"])
            return self.cond(c, bool(t["e"]))
        if t["k"] != "switch":
            return []
        e = self.op(t["d"])
        dty = self.b.op_ty(t["d"])
        isbool = dty is not None and self.F.types[dty]["k"] == "bool"
        vals = [v for v, x in t["v"] if x == tgt]
        other = t["o"] == tgt
        if isbool:
            tv = set(bool(int(v)) for v in vals)
            if other:
                tv |= {True, False} - set(bool(int(v)) for v, _ in t["v"])
            if len(tv) == 1:
                return self.cond(e, tv.pop())
            return []
        out = []
        if e[0] == "discr":
            x = e[1]
            kind = self.opt_kind(e[2])
            if kind:
                good = {"option": 1, "result": 0, "flow": 0}[kind]
                # which discriminants reach tgt
                vs = set(int(v) for v in vals)
                if other:
                    vs |= {0, 1} - set(int(v) for v, _ in t["v"])
                if vs == {good}:
                    out.append(("ok", x))
                    out += self.ok_facts(x)
                elif good not in vs:
                    out.append(("notok", x))
            if len(vals) == 1 and not other:
                out.append(("Eq", e, ("c", int(vals[0]))))
            elif other and not vals:
                for v, x2 in t["v"]:
                    out.append(("Ne", e, ("c", int(v))))
            return out
        if len(vals) == 1 and not other:
            out.append(("Eq", e, ("c", int(vals[0]))))
        elif vals and not other:
            out.append(("in", e, tuple(sorted(int(v) for v in vals))))
            out.append(("Ge", e, ("c", min(int(v) for v in vals))))
            out.append(("Le", e, ("c", max(int(v) for v in vals))))
        elif other and not vals:
            vs = sorted(int(v) for v, _ in t["v"])
            for v in vs:
                out.append(("Ne", e, ("c", v)))
            # unsigned: excluding 0..k leaves at least k+1
            k = 0
            while k in vs:
                k += 1
            if k and dty is not None and self.F.types[dty]["s"].startswith("u"):
                out.append(("Ge", e, ("c", k)))
        return out

    def opt_kind(self, ty):
        if ty is None:
            return None
        t = self.F.types[ty]
        while t["k"] in ("ref", "ptr"):
            t = self.F.types[t["t"]]
        if t["k"] != "adt":
            return None
        d = t["d"]
        if d.endswith("option::Option"):
            return "option"
        if d.endswith("result::Result"):
            return "result"
        if d.endswith("ControlFlow"):
            return "flow"
        return None

    def edges(self):
        """Branching edges (bb, target) of the body."""
        out = []
        for bb in self.b.reach:
            t = self.b.blocks[bb]["t"]
            if t["k"] == "switch":
                for x in set([x for _, x in t["v"]] + [t["o"]]):
                    out.append((bb, x))
            elif t["k"] == "assert":
                out.append((bb, t["t"]))
        return out

    def dom_edges(self, bb):
        """Edges every path from the entry to bb passes."""
        if not hasattr(self, "_de"):
            self._de = {}
            self._reach_wo = {}
        if bb in self._de:
            return self._de[bb]
        out = []
        dom = self.b.dom
        ds = dom.get(bb, set()) if isinstance(dom, dict) else dom[bb]
        if self.dead_edges():
            ds = [s for s in self.b.reach if self.b.blocks[s]["t"]["k"] == "switch" or s in ds]
        for s in ds:
            t = self.b.blocks[s]["t"]
            if t["k"] == "switch":
                for x in set([x for _, x in t["v"]] + [t["o"]]):
                    if x not in ds and not self.dead_edges():
                        continue
                    if bb not in self.reach_without(s, x):
                        out.append((s, x))
            elif t["k"] == "assert":
                if s != bb and bb not in self.reach_without(s, t["t"]):
                    out.append((s, t["t"]))
        self._de[bb] = out
        return out

    def dead_edges(self):
        """Branches on `0 <= x` of an unsigned x (the lower end of a range pattern) that are never taken."""
        if not hasattr(self, "_dead"):
            self._dead = set()
            out = set()
            for bb in self.b.reach:
                t = self.b.blocks[bb]["t"]
                if t["k"] != "switch" or not isinstance(t["d"].get("p"), list) or t["d"]["p"][1]:
                    continue
                d = self.b.single_def(t["d"]["p"][0])
                r = d[2] if d else {"k": ""}
                if r["k"] != "bin" or r["op"] not in ("Le", "Ge"):
                    continue
                lo, v = (r["a"], r["b"]) if r["op"] == "Le" else (r["b"], r["a"])
                ty = self.b.op_ty(v)
                if ty is not None and self.F.tys(ty)[:1] == "u" and self.op(lo) == ("c", 0):
                    no = [x for v, x in t["v"] if int(v) == 0] or [t["o"]]
                    if no[0] != t["o"] or all(int(v) for v, _ in t["v"]):
                        out.add((bb, no[0]))
            self._dead = out
        return self._dead

    def reach_without(self, s, x):
        k = (s, x)
        if k not in self._reach_wo:
            seen = {0}
            st = [0]
            succ = self.b.succ
            while st:
                n = st.pop()
                for m in succ[n]:
                    if n == s and m == x or (n, m) in self.dead_edges():
                        continue
                    if m not in seen:
                        seen.add(m)
                        st.append(m)
            self._reach_wo[k] = seen
        return self._reach_wo[k]

    def raw_facts(self, bb):
        if not hasattr(self, "_rf"):
            self._rf = {}
        if bb in self._rf:
            return self._rf[bb]
        self._rf[bb] = []
        out = []
        for s, x in self.dom_edges(bb):
            for f in self.edge_facts(s, x):
                if self.stable(f, x, bb, s):
                    out.append(f)
        self._rf[bb] = out
        return out

    def facts(self, bb):
        return self.raw_facts(bb)

    # ---- stability: nothing between the branch and the use changes what the fact talks about
    def stable(self, fact, frm, to, src):
        ls = set()
        flds = set()
        collect(fact, ls, flds)
        bare = set()
        collect_bare(fact, bare)
        if not ls and not flds:
            return True
        between = self.between(frm, to, src)
        for bb in between:
            blk = self.b.blocks[bb]
            for i, s in enumerate(blk["s"]):
                if s["k"] != "=":
                    continue
                if bb == to and bb != frm:
                    pass
                if s["p"][0] in ls and (not s["p"][1] or True) and not self.defines_only(s, ls):
                    if bb == to:
                        continue  # at the use block: handled by the caller through block splitting
                    return False
                if s["p"][1] and flds:
                    e = self.place(s["p"])
                    if e in flds and bb != to:
                        return False
                r = s["r"]
            t = blk["t"]
            if t["k"] == "call" and bb != to:
                if not t["d"][1] and t["d"][0] in ls:
                    return False
                n = last(self.F.nice(t.get("res") or t.get("f") or "?"))
                if n in HARMLESS:
                    continue
                for a in t["a"]:
                    ty = self.b.op_ty(a)
                    if ty is None:
                        continue
                    tt = self.F.types[ty]
                    if tt["k"] in ("ref", "ptr") and tt.get("mut"):
                        e = self.op(a)
                        if e[0] == "l" and e[1] in bare:
                            return False
                        for f in flds:
                            if has_prefix(f, e) and self.may_change(t, f, e):
                                return False
        return True

    def may_change(self, t, f, e):
        """The call may change the field expression f below the value e it is given mutably."""
        import mods, bounds
        g = t.get("res") or t.get("f")
        if g not in self.F.bodies:
            return True
        m = mods.get(self.F)
        B_ = bounds.B(self.F, self, [])
        while f != e:
            if f[0] == "pure":
                return True
            if f[0] == "f":
                ty = B_.seq_type(f[1])
                if ty is None:
                    return True
                _, x = mods.strip(self.F, ty)
                if x["k"] != "adt" or m.may(g, x["d"], f[2]):
                    return True
            f = f[1]
        return False

    def defines_only(self, s, ls):
        return False

    def between(self, frm, to, src):
        """Blocks on a path frm -> to that does not pass the branch src again."""
        key = (frm, to, src)
        if not hasattr(self, "_bt"):
            self._bt = {}
        if key in self._bt:
            return self._bt[key]
        fwd = {frm}
        st = [frm]
        while st:
            n = st.pop()
            if n == to:
                continue
            for m in self.b.succ[n]:
                if m != src and m not in fwd:
                    fwd.add(m)
                    st.append(m)
        # a loop through `to` itself that does not pass src
        back = {to}
        st = [to]
        pred = self.b.pred
        while st:
            n = st.pop()
            for m in pred[n]:
                if m != src and m not in back and m in fwd | {to}:
                    back.add(m)
                    st.append(m)
        self._bt[key] = fwd & back
        return self._bt[key]


# deref_mut and the like hand out a reference to the same value: what is done through it is seen where it is used
HARMLESS = {"deref_mut", "borrow_mut", "as_mut", "as_mut_slice", "by_ref", "read_u8", "read_u16", "read_u32", "next", "seek", "read", "read_exact", "push_str", "fmt", "write_fmt", "log", "drop", "drop_in_place"}


def has_prefix(f, e):
    while True:
        if f == e:
            return True
        if f[0] in ("f", "down", "some", "idx") and isinstance(f[1], tuple):
            f = f[1]
        else:
            return False


def collect_bare(e, ls):
    """Locals used as a whole, not just through one of their fields."""
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == "l" and len(e) == 2 and isinstance(e[1], int):
        ls.add(e[1])
        return
    if e[0] == "f":
        x = e[1]
        while isinstance(x, tuple) and x and x[0] == "f":
            x = x[1]
        if x and x[0] == "l":
            return
        collect_bare(x, ls)
        return
    for x in e:
        if isinstance(x, tuple):
            collect_bare(x, ls)


def collect(e, ls, flds):
    if not isinstance(e, tuple):
        return
    if e and e[0] == "l" and len(e) == 2 and isinstance(e[1], int):
        ls.add(e[1])
        return
    if e and e[0] == "f":
        flds.add(e)
    if e and e[0] == "pure":
        flds.update(x for x in e[2:] if isinstance(x, tuple) and x[0] != "c")
    for x in e:
        if isinstance(x, tuple):
            collect(x, ls, flds)


def depth_of(e):
    if not isinstance(e, tuple):
        return 0
    m = 0
    for x in e:
        if isinstance(x, tuple):
            d = depth_of(x)
            if d > m:
                m = d
    return m + 1


def fold(op, a, b):
    try:
        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b if b else None, "Rem": lambda: a % b if b else None,
                "Shl": lambda: a << b if 0 <= b < 64 else None, "Shr": lambda: a >> b if b >= 0 else None, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                "Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}[op]()
    except KeyError:
        return None


def is_num(F, t):
    return F.types[t]["k"] in ("int", "float", "bool", "char")


INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128, "bool": 1, "char": 32}


def widening(F, s, d):
    """The conversion keeps every value."""
    a, b = F.tys(s), F.tys(d)
    if a not in INTW or b not in INTW:
        return True if (a in INTW) == (b in INTW) else True
    ua, ub = a[0] in "ubc", b[0] in "u"
    if ua:
        return INTW[b] >= INTW[a] if ub else INTW[b] > INTW[a]
    return (not ub) and INTW[b] >= INTW[a]


def same_len(F, a, b):
    def seq(t):
        x = F.types[t]
        while x["k"] in ("ref", "ptr"):
            x = F.types[x["t"]]
        return x["k"] in ("slice", "array", "str") or (x["k"] == "adt" and x["d"].split("::")[-1] in ("Vec", "Box", "String"))
    return seq(a) and seq(b)


def subst(e, m):
    if not isinstance(e, tuple):
        return e
    if e in m:
        return m[e]
    return tuple(subst(x, m) for x in e)


_sum = {}


def has_bad(e, bad=("l", "call@", "ty")):
    if not isinstance(e, tuple):
        return False
    if e and e[0] in bad:
        return True
    return any(has_bad(x, bad) for x in e if isinstance(x, tuple))


def summary(F, f):
    """A function that only computes a value of its parameters: its result as an expression."""
    if f in _sum:
        return _sum[f]
    _sum[f] = None
    b = F.bodies[f]
    if b.kind != "fn" or len(b.reach) > 6 or b.argc == 0:
        return None
    if any(b.blocks[bb]["t"]["k"] == "switch" for bb in b.reach):
        return None
    x = X.of(F, b)
    e = x.local(0)
    if has_bad(e) or depth_of(e) > 8:
        return None
    _sum[f] = e
    return e


SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}


def of_type(F, f, t):
    """A function of a type alone (size_of, an associated function without parameters) as an expression of the type."""
    if len(t["ta"]) != 1:
        return None
    ty = ("ty", F.tys(t["ta"][0]))
    if f not in F.bodies:
        if last(F.nice(f)) == "size_of":
            return concrete(F, ("call", "size_of", ty))
        return None
    if not t.get("res"):
        return ("call", "assoc", t["f"], ty) if const_fn(F, t["f"]) is not None else None
    return concrete(F, ("call", "assoc", t["f"], ty)) if const_fn(F, f) is not None else None


def const_fn(F, f):
    """The value of a function without parameters, as an expression of its type."""
    k = ("const", f)
    if k not in _sum:
        _sum[k] = None
        b = F.bodies.get(f)
        if b is not None and b.argc == 0 and len(b.reach) < 8 and not any(b.blocks[bb]["t"]["k"] == "switch" for bb in b.reach):
            e = X.of(F, b).local(0)
            if not has_bad(e, ("l", "call@")):
                _sum[k] = e
    return _sum[k]


def concrete(F, e):
    """Evaluate sizes and associated functions of known types."""
    if not isinstance(e, tuple):
        return e
    e = tuple(concrete(F, y) for y in e)
    if len(e) == 3 and e[:2] == ("call", "size_of") and e[2][0] == "ty" and e[2][1] in SIZES:
        return ("c", SIZES[e[2][1]])
    if len(e) == 4 and e[:2] == ("call", "assoc"):
        for item, st in F.impl_of.get(e[2], []):
            if F.tys(st) == e[3][1]:
                r = const_fn(F, item)
                return concrete(F, r) if r is not None else e
        if e[3][1] in SIZES:
            r = const_fn(F, e[2])
            if r is not None:
                return concrete(F, subst(r, {("ty", "Self"): e[3]}))
    if len(e) == 4 and e[0] == "bin" and e[2][0] == "c" and e[3][0] == "c" and isinstance(e[2][1], int) and isinstance(e[3][1], int):
        v = fold(e[1], e[2][1], e[3][1])
        if v is not None:
            return ("c", v)
    return e


_pure = {}


def pure(F, f):
    """The function only computes a value from what its parameters refer to: no writes, no calls that could have an effect."""
    if f in _pure:
        return _pure[f]
    _pure[f] = False
    b = F.bodies[f]
    if b.kind != "fn" or b.argc == 0 or len(b.reach) > 40:
        return False
    rt = F.types[b.lty(0)]
    if rt["k"] not in ("int", "bool", "char"):
        return False
    for l in range(1, b.argc + 1):
        t = F.types[b.lty(l)]
        if t["k"] == "ref" and t.get("mut") or t["k"] in ("ptr", "dyn", "fnptr"):
            return False
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=" and "*" in s["p"][1]:
                return False
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            g = t.get("res") or t.get("f")
            if not g:
                return False
            if g in F.bodies:
                if not pure(F, g):
                    return False
            elif last(F.nice(g)) not in PURE | IDENT | set(CMPF):
                return False
        elif t["k"] == "drop":
            return False
    _pure[f] = True
    return True


def captures_env(e, n):
    """Mentions the environment of a closure other than by its fields."""
    if not isinstance(e, tuple):
        return False
    if len(e) == 3 and e[0] == "f" and e[1] == ("p", 1):
        return e[2] >= n
    return e == ("p", 1) or any(captures_env(y, n) for y in e)


_bs = {}


def weaker(x, facts):
    """The facts, those that compare with a value found on several paths made to compare with what all of them stay below."""
    out = []
    for a in facts:
        if len(a) == 3 and a[0] in ("Le", "Lt", "Ge", "Gt") and has_bad(a):
            op, lo, hi = a if a[0] in ("Le", "Lt") else (FLIP[a[0]], a[2], a[1])
            hi = ceiling(x, hi)
            if hi is not None:
                a = (op, lo, hi)
        out.append(a)
    return out


def ceiling(x, e):
    """What an unsigned value that has several definitions is never above."""
    if e[0] != "l" or e[1] in x.mutref or e[1] <= x.b.argc:
        return None
    if x.F.tys(x.b.lty(e[1])) not in ("u8", "u16", "u32", "u64", "u128", "usize"):
        return None
    r = set()
    for bb, i, rv in x.b.defs.get(e[1], []):
        v = x.rv(rv, bb, e[1])
        while v[0] == "bin" and v[1] in ("Sub", "Div", "Shr", "Rem"):
            v = v[2]
        if v != ("c", 0):
            r.add(v)
    return r.pop() if len(r) == 1 and not has_bad(tuple(r)) else None


def bool_summary(F, f, truth):
    """Facts about the parameters of a bool function implied by its result."""
    k = (f, truth)
    if k in _bs:
        return _bs[k]
    _bs[k] = []
    b = F.bodies[f]
    if F.types[b.lty(0)]["k"] != "bool" or len(b.reach) > 400:
        return []
    x = X.of(F, b)
    out = [a for a in weaker(x, x.cond(x.local(0), truth)) if not has_bad(a)]
    out += hulls(F, b, lambda R: R.returning(truth))
    _bs[k] = out
    return out


def project(e):
    """Fields of values built on the spot."""
    if not isinstance(e, tuple):
        return e
    e = tuple(project(y) for y in e)
    if len(e) == 3 and e[0] == "f" and isinstance(e[1], tuple) and e[1] and e[1][0] == "agg" and isinstance(e[2], int) and e[2] < len(e[1][3]):
        return e[1][3][e[2]]
    return e


def compared(F, b):
    """Parts of the parameters the body compares for equality with constants."""
    x = X.of(F, b)
    fixed = set()
    for l in range(1, b.argc + 1):
        t = F.types[b.lty(l)]
        if l not in x.mutref and not (t["k"] in ("ref", "ptr") and t.get("mut")):
            fixed.add(l)

    def part(e):
        n = 0
        if e[0] == "len":
            e = e[1]
        while e[0] == "f" and n < 4:
            e = e[1]
            n += 1
        return e[0] == "p" and e[1] in fixed and len(x.b.defs.get(e[1], [])) == 0
    out = {}
    for bb in b.reach:
        rs = [(s["r"], s["p"][0]) for s in b.blocks[bb]["s"] if s["k"] == "=" and s["r"]["k"] == "bin" and s["r"]["op"] in ("Eq", "Ne")]
        for r, l in rs:
            e = x.rv(r, bb, l)
            if e[0] == "bin" and e[1] in ("Eq", "Ne"):
                for a, c in ((e[2], e[3]), (e[3], e[2])):
                    if c[0] == "c" and isinstance(c[1], int) and part(a):
                        out[a] = out.get(a, 0) + 1
        t = b.blocks[bb]["t"]
        if t["k"] == "switch" and len(t["v"]) > 1:
            e = x.op(t["d"])
            if part(e):
                out[e] = out.get(e, 0) + 2
    return [e for e, n in out.items() if n > 1]


def hulls(F, b, values):
    """Bounds of parts of the parameters compared with several constants, as facts."""
    import ranges
    out = []
    for e in compared(F, b):
        R = ranges.Ranges(F, b, e)
        if R.at is None:
            continue
        iv = values(R)
        if not iv:
            continue
        lo, hi = iv[0][0], iv[-1][1]
        if hi < ranges.INF:
            out.append(("Le", e, ("c", hi)))
        if lo > 0:
            out.append(("Ge", e, ("c", lo)))
    return out


def payload_summary(F, f):
    """What is in the Some/Ok the function returns, as one expression over its parameters (None if it is not)."""
    b = F.bodies[f]
    x = X.of(F, b)
    kind = x.opt_kind(b.lty(0))
    if kind not in ("option", "result") or 0 in x.mutref:
        return None
    good = {"option": 1, "result": 0}[kind]
    r = None
    for bb, i, rv in b.defs.get(0, []):
        e = made(x, bb, rv)
        if e is None:
            return None
        if e[0] == "agg" and e[2] != good:
            continue
        p = x.payload(e, 99)
        if has_bad(p) or p[0] == "some" or (r is not None and r != p):
            return None
        r = p
    return r


def made(x, bb, rv):
    """The option or result a definition makes; ("agg", _, other variant, ()) for a residual."""
    if rv["k"] == "agg":
        return ("agg", "", rv["v"], tuple(x.op(o) for o in rv["ops"]))
    if rv["k"] == "call":
        if last(x.F.nice(rv.get("f") or "?")) == "from_residual":
            return ("agg", "", -1, ())
        return x.call(rv, bb)
    if rv["k"] == "use":
        return x.op(rv["o"])
    return None


_os = {}


def ok_summary(F, f):
    """Facts about the parameters implied by the function returning Ok/Some: hold at every place that builds the result."""
    if f in _os:
        return _os[f]
    _os[f] = []
    b = F.bodies[f]
    x = X.of(F, b)
    kind = x.opt_kind(b.lty(0))
    if kind not in ("option", "result") or len(b.reach) > 400:
        return []
    good = {"option": 1, "result": 0}[kind]
    sets = []
    for bb, i, rv in b.defs.get(0, []):
        if rv["k"] == "agg":
            if rv["v"] == good:
                fs = set(x.facts(bb))
                pe = x.op(rv["ops"][0]) if rv["ops"] else None
                if pe is not None and pe[0] != "c":
                    # what is known about the value inside
                    fs |= {subst(a, {x.length(pe): ("len", ("ret",)), pe: ("ret",)}) for a in fs}
                sets.append(fs)
        elif rv["k"] == "call":
            n = last(F.nice(rv.get("f") or "?"))
            if n == "from_residual":
                continue
            e = x.call(rv, bb)
            sets.append(set(x.facts(bb)) | set(x.ok_facts(e)))
        elif rv["k"] == "use":
            e = x.op(rv["o"])
            if e[0] == "agg" and e[2] == good:
                sets.append(set(x.facts(bb)))
            elif e[0] == "agg":
                continue
            else:
                sets.append(set(x.facts(bb)) | set(x.ok_facts(e)))
        else:
            return []
    if not sets:
        return []
    r = sets[0]
    for s in sets[1:]:
        r &= s
    out = [a for a in weaker(x, r) if not has_bad(a)]
    good_at = [bb for bb, i, rv in b.defs.get(0, []) if not (rv["k"] == "agg" and rv["v"] != good or rv["k"] == "call" and last(F.nice(rv.get("f") or "?")) == "from_residual")]

    def values(R):
        iv = ()
        for bb in good_at:
            iv += R.get(bb)
        import ranges
        return ranges.norm(iv)
    out += hulls(F, b, values)
    _os[f] = out
    return out
