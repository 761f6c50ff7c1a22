"""R05: every buffer whose size comes from the file is limited by the data there is, or by a fixed bound."""
import ctx, cg, inter, expr, mods
from expr import X, last, subst, has_bad
from bounds import B, BIG, impls_of, range_items
from term import callee

LIMIT = 1 << 31           # elements: the fixed bound a size may rest on
FACTOR = 64               # how many elements one byte of data may ask for
SIZED = {"with_capacity": 0, "from_elem": 1, "resize": 1, "reserve": 1, "reserve_exact": 1, "repeat": 1, "resize_with": 1, "with_capacity_in": 0, "new_uninit_slice": 0,
         "new_zeroed_slice": 0, "repeat_n": 1, "set_len": 1, "with_capacity_and_hasher": 0, "extend_with": 1, "array": 0}
WRAP = ("ok_or", "ok_or_else", "map_err", "ok", "branch", "filter", "copied", "cloned", "inspect_err", "expect", "unwrap")


def factors(e):
    """The factors of a product, whatever way it is written."""
    if e[0] == "bin" and e[1] == "Mul":
        return factors(e[2]) + factors(e[3])
    if e[0] == "cast" and e[1] in ("usize", "u64", "u128"):
        return factors(e[2])
    if e[0] == "call" and e[1] in ("saturating_mul",):
        return factors(e[2]) + factors(e[3])
    return [e]


def addends(B_, a):
    """The terms of a sum of unsigned numbers, whatever way it is written."""
    if a[0] == "bin" and a[1] == "Add":
        return addends(B_, a[2]) + addends(B_, a[3])
    if a[0] == "some" and a[1][0] == "call" and a[1][1] == "checked_add":
        t = [B_.seq_type(z) for z in a[1][2:4]]
        if any(z is not None and B_.F.tys(z).lstrip("&").startswith("u") for z in t):
            return addends(B_, a[1][2]) + addends(B_, a[1][3])
    if a[0] == "cast" and a[1] in ("usize", "u64", "u128"):
        return addends(B_, a[2])
    return [a]


def norm(e, x=None):
    fs = factors(e)
    if x is not None:
        # a conversion to a narrower unsigned type gives no larger value
        fs = [y for f in fs for y in factors(narrowed(x, f))]
    return tuple(sorted(fs, key=repr))


def narrowed(x, e):
    while e[0] == "cast" and e[1] in ("u8", "u16", "u32", "usize", "u64"):
        t = B(x.F, x, []).seq_type(e[2])
        if t is None or not x.F.tys(t).lstrip("&").startswith("u"):
            break
        e = e[2]
    return e


class Bounded:
    """Is a value limited by the data or by a constant?"""

    def __init__(self, F, C):
        self.F, self.C = F, C
        self.busy = set()
        self.why = None

    def goal(self, B_, e):
        return self.bounded(B_, e, 0)

    def bounded(self, B_, e, d):
        if d > 10:
            return False
        if e[0] == "c":
            return isinstance(e[1], (int, bool)) and int(e[1]) <= LIMIT
        if B_.ub(e) <= LIMIT:
            return True
        k = e[0]
        if k == "len":
            return True
        if self.data_len(B_, e):
            return True
        if self.by_fact(B_, e, d):
            return True
        n = d + 1
        if k == "ovf":
            return self.bounded(B_, e[1], n)
        if k == "cast":
            return self.bounded(B_, e[2], n)
        if k == "bin":
            op, a, b = e[1:4]
            if op == "Add":
                return self.bounded(B_, a, n) and self.bounded(B_, b, n)
            if op in ("Sub", "Div", "Shr"):
                return self.bounded(B_, a, n)
            if op == "Mul":
                return (B_.ub(b) <= FACTOR and self.bounded(B_, a, n)) or (B_.ub(a) <= FACTOR and self.bounded(B_, b, n))
            if op == "Shl":
                return B_.ub(b) <= 6 and self.bounded(B_, a, n)
            if op in ("BitAnd",):
                return self.bounded(B_, a, n) or self.bounded(B_, b, n)
            if op == "Rem":
                return self.bounded(B_, a, n) or self.bounded(B_, b, n)
            if op in ("BitOr", "BitXor"):
                return self.bounded(B_, a, n) and self.bounded(B_, b, n)
            return False
        if k == "call":
            c, args = e[1], [a for a in e[2:] if isinstance(a, tuple)]
            if c == "min":
                return any(self.bounded(B_, a, n) for a in args)
            if c in ("max", "saturating_add", "wrapping_add"):
                return all(self.bounded(B_, a, n) for a in args)
            if c == "clamp":
                return self.bounded(B_, args[2], n)
            if c in ("saturating_sub", "div_ceil", "next_power_of_two", "abs_diff") and args:
                return all(self.bounded(B_, a, n) for a in args) if c == "abs_diff" else self.bounded(B_, args[0], n)
            if c == "saturating_mul":
                return self.bounded(B_, ("bin", "Mul") + tuple(args), n)
            if c in ("unwrap_or",) and len(args) == 2:
                return self.bounded(B_, B_.x.payload(args[0], 99), n) and self.bounded(B_, args[1], n)
            if c in ("unwrap_or_default", "unwrap", "expect") and args:
                return self.bounded(B_, B_.x.payload(args[0], 99), n)
            return False
        if k == "l":
            return self.local(B_, e[1], n)
        if k in ("pure", "call@", "some"):
            return self.result(B_, e, n)
        return False

    def by_fact(self, B_, e, d):
        """A branch has compared the value, or a product it is a factor of, with something limited."""
        ne = norm(e, B_.x)
        for f in B_.facts:
            if len(f) != 3 or f[0] not in expr.NEG:
                continue
            for op, a, c in (f, (expr.FLIP[f[0]], f[2], f[1])):
                if op not in ("Le", "Lt", "Eq"):
                    continue
                if a == c or c == e:
                    continue
                # no addend is larger than the sum
                na = next((z for z in map(norm, addends(B_, a)) if z == ne), norm(a))
                hit = na == ne
                if not hit and len(na) > len(ne):
                    rest = list(na)
                    ok = True
                    for y in ne:
                        if y in rest:
                            rest.remove(y)
                        else:
                            ok = False
                    hit = ok and all(B_.nonzero(y) for y in rest)
                if not hit:
                    continue
                key = ("fact", id(B_.x), f, e)
                if key in self.busy:
                    continue
                self.busy.add(key)
                try:
                    if self.bounded(B_, c, d + 2):
                        return True
                finally:
                    self.busy.discard(key)
        return False

    def data_len(self, B_, e):
        """The length of the file or of a view of it."""
        F = self.F
        if e[0] == "f" and isinstance(e[1], tuple):
            ty = B_.seq_type(e[1])
            if ty is not None:
                t = owned(F, ty)
                if t["k"] == "adt" and t["d"] in self.readers():
                    return True
        s = e
        while s[0] == "some" or (s[0] == "call" and s[1] in WRAP and len(s) > 2):
            s = s[1] if s[0] == "some" else s[2]
        if s[0] == "call@":
            n = last(F.nice(s[2]))
            if n in ("stream_len",):
                return True
            if n == "len" and s[2] not in F.bodies:
                return True
            if n == "seek" and len(s) > 4 and s[4][0] == "agg" and s[4][2] in (1, "End"):
                return True
            if n in ("read", "read_to_end", "read_to_string", "read_until", "read_line"):
                return True
        return False

    def readers(self):
        """Structs of the crate that stand for a part of the file: they implement Read and Seek."""
        if not hasattr(self, "_rd"):
            have = {}
            for im in self.F.impls:
                n = im["trait"].split("::")
                if "io" in n and n[-1] in ("Read", "Seek"):
                    t = self.F.types[im["self"]]
                    if t["k"] == "adt" and t["d"] in self.F.adts:
                        have.setdefault(t["d"], set()).add(n[-1])
            self._rd = {d for d, s in have.items() if len(s) == 2}
        return self._rd

    def not_from_file(self, b, e, seen=()):
        """The value is made of constants and of what users of the library pass in."""
        F = self.F
        if e[0] == "c":
            return True
        if e[0] == "cast":
            return self.not_from_file(b, e[2], seen)
        if e[0] == "bin" and e[1] in ("Add", "Sub", "Mul", "Div"):
            return self.not_from_file(b, e[2], seen) and self.not_from_file(b, e[3], seen)
        if e[0] == "f" and b.kind == "closure":
            return self.captured(b, e, seen)
        if e[0] != "p" or b.kind != "fn":
            return False
        if (b.id, e[1]) in seen:
            return True
        seen = seen + ((b.id, e[1]),)
        fi = F.fns.get(b.id, {})
        m, unk = inter.callers(F, self.C)
        if b.id in unk:
            return False
        sites = list(m.get(b.id, [])) + list(self.trait_sites().get(fi.get("trait_item"), []))
        if not sites and not fi.get("reach"):
            return False
        for cb, cbb, t in sites:
            cx = X.of(F, cb)
            if e[1] > len(t["a"]) or not self.not_from_file(cb, cx.op(t["a"][e[1] - 1]), seen):
                return False
        return True

    def trait_sites(self):
        """Calls of trait methods that are not resolved: {trait method: [(body, block, call)]}."""
        if not hasattr(self, "_ts"):
            self._ts = {}
            for cb in self.F.bodies.values():
                for bb, t in cb.calls():
                    if t.get("trait") and t.get("f") and (t.get("res") in (None, "virtual") or t.get("res") == t["f"]):
                        self._ts.setdefault(t["f"], []).append((cb, bb, t))
        return self._ts

    def captured(self, b, e, seen):
        for cb in self.F.bodies.values():
            for bb in cb.reach:
                for s in cb.blocks[bb]["s"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == b.id:
                        if e[1] != ("p", 1) or e[2] >= len(s["r"]["ops"]):
                            return False
                        if not self.not_from_file(cb, X.of(self.F, cb).op(s["r"]["ops"][e[2]]), seen):
                            return False
        return True

    def local(self, B_, l, d):
        x = B_.x
        key = ("local", x.b.id, l)
        if key in self.busy:
            return True          # grows only by what the other definitions add: see Add
        if l <= x.b.argc or l in x.mutref:
            return False
        ds = x.b.defs.get(l, [])
        if not ds:
            return False
        # a sum that goes round a loop has no limit of its own
        self.busy.add(key)
        try:
            for bb, i, rv in ds:
                v = x.rv(rv, bb, l)
                if mentions(v, ("l", l)) and not (v[0] == "bin" and v[1] in ("Sub", "Div", "Shr", "Rem", "BitAnd")):
                    return False
                if not self.bounded(B(self.F, x, x.facts(bb)), v, d + 1):
                    return False
            return True
        finally:
            self.busy.discard(key)

    def result(self, B_, e, d):
        """What a helper of the crate returns, its parameters replaced by the arguments."""
        F = self.F
        s, opt = e, False
        while s[0] == "some" or (s[0] == "call" and s[1] in WRAP and len(s) > 2):
            opt = True
            s = s[1] if s[0] == "some" else s[2]
        if s[0] == "pure":
            f, args = s[1], s[2:]
        elif s[0] == "call@":
            f, args = s[2], s[3:]
        else:
            if opt and s[0] == "call" and s[1] in ("try_into", "try_from"):
                return self.bounded(B_, s[2], d)
            if opt and s[0] == "call" and s[1] in ("checked_add", "checked_sub", "checked_mul", "checked_div"):
                return False
            return False
        key = ("fn", f)
        if key in self.busy or f not in F.bodies:
            return False
        self.busy.add(key)
        try:
            for g in impls_of(F, f) or []:
                b = F.bodies[g]
                x = X.of(F, b)
                if 0 in x.mutref:
                    return False
                mp = {("p", i + 1): a for i, a in enumerate(args) if isinstance(a, tuple)}
                kind = x.opt_kind(b.lty(0))
                rets = list(self.payloads(b, x, kind if opt else None))
                for bb, v in rets:
                    BB = B(F, x, x.facts(bb))
                    if self.bounded(BB, v, d + 1):
                        continue
                    v = above(v)
                    if has_bad(v):
                        return False
                    v2 = inter.simplify(B_.x, subst(v, mp))
                    fs = [subst(z, mp) for z in x.facts(bb) if not has_bad(z)]
                    if not self.bounded(B(F, B_.x, list(B_.facts) + fs), v2, d + 1):
                        return False
            return True
        finally:
            self.busy.discard(key)

    def payloads(self, b, x, kind):
        F = self.F
        good = {"option": 1, "result": 0}.get(kind)
        for bb, i, rv in b.defs.get(0, []):
            v = x.rv(rv, bb, 0)
            if kind is None:
                yield bb, v
            elif v[0] == "agg" and v[2] is not None and len(v[3]) <= 1 and rv["k"] in ("agg", "use"):
                if v[2] == good and v[3]:
                    yield bb, v[3][0]
            elif rv["k"] == "call" and last(F.nice(rv.get("f") or "?")) == "from_residual":
                continue
            else:
                yield bb, x.payload(v, 99)


def above(v):
    """A value at least as large that doesn't mention what only the function itself knows."""
    while has_bad(v) and v[0] in ("bin", "cast"):
        if v[0] == "cast" and v[2][0] == "bin":
            v = v[2]
        elif v[0] == "bin" and v[1] in ("Div", "Shr", "Sub", "Rem"):
            v = v[2]
        else:
            break
    return v


def owned(F, ty):
    """The type behind references, guards and smart pointers."""
    for _ in range(6):
        _, t = mods.strip(F, ty)
        if t["k"] == "adt" and t["a"] and last(t["d"]) in ("RefMut", "Ref", "Rc", "Arc", "Box", "MutexGuard", "ManuallyDrop"):
            ty = t["a"][0]
            continue
        return t
    return t


def mentions(v, a):
    if v == a:
        return True
    return isinstance(v, tuple) and any(mentions(y, a) for y in v if isinstance(y, tuple))


def run(F, R):
    R.rule("limit", "a buffer sized by a value from the file: the size is a constant, the length of data already there, or has been compared with one or limited on every path")
    R.rule("fallible", "a buffer in a fallible collection: the failure to allocate is passed on")
    G, C = ctx.get(F), cg.get(F)
    bd = Bounded(F, C)
    live = sorted({n[0] for n in G.nodes()}, key=lambda k: (F.bodies[k].file, F.bodies[k].line))
    for k in live:
        b = F.bodies[k]
        x = X.of(F, b)
        for bb, t in b.calls():
            f = callee(t) or ""
            if f in F.bodies:
                continue
            n = last(F.nice(f))
            where = "%s:%d" % (b.file, t["l"])
            if n == "collect":
                e = range_items(F, x.op(t["a"][0]))
                if e is None:
                    continue
            elif n in SIZED and len(t["a"]) > SIZED[n]:
                if n == "array" and "Layout" not in f:
                    continue
                if "fallible_collections" in f or n.startswith("try_"):
                    R.check(outcome_used(F, b, bb, t), "fallible", "%s|%s" % (b.nice, n), "%s drops the failure to allocate" % b.nice, where)
                    continue
                e = x.op(t["a"][SIZED[n]])
            else:
                continue
            if e[0] == "c":
                continue
            ok = inter.prove(F, C, b, bb, e, bd.goal) or bd.not_from_file(b, e)
            R.check(ok, "limit", "%s|%s|%s" % (b.nice, n, inter.show(F, b, e)),
                    "%s allocates %s elements, a number no test limits to the data there is or to a fixed bound" % (b.nice, inter.show(F, b, e)), where)
    R.assume("a buffer that grows by pushing what has been read, or what a loop makes, is not sized in advance: such growth is not part of this rule")
    R.note("limit: %d elements, or %d elements for a byte of data" % (LIMIT, FACTOR))
    R.floor("limit", 30)
    R.floor("fallible", 4)


def outcome_used(F, b, bb, t):
    l = t["d"][0]
    for i in b.reach:
        for s in b.blocks[i]["s"]:
            if s["k"] == "=" and uses(s["r"], l):
                return True
        q = b.blocks[i]["t"]
        if q["k"] == "call" and any(a.get("k") in ("copy", "move") and a["p"][0] == l for a in q["a"]):
            return True
        if q["k"] == "return" and l == 0:
            return True
    return False


def uses(r, l):
    if isinstance(r, dict):
        if r.get("k") in ("copy", "move") and r["p"][0] == l:
            return True
        if r.get("k") in ("discr", "ref") and r.get("p") and r["p"][0] == l:
            return True
        return any(uses(v, l) for v in r.values())
    if isinstance(r, list):
        return any(uses(v, l) for v in r)
    return False
