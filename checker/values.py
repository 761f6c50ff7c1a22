"""Which variants of an enumeration a value can have at a point: from the branches taken to get there, and from everything
that can flow into it (assignments, arguments at all call sites, results, fields, captured variables, constants of all implementors)."""
import ctx, mods, mir
from expr import X, last
from inter import callers, public
from term import callee

ALL = None


def union(a, b):
    return ALL if a is ALL or b is ALL else a | b


def stores(F, b, g, n=0):
    """What is assigned through a guard or mutable reference in local g: [(block, rvalue)], None when it is used otherwise."""
    out = []
    if n > 6:
        return None
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s["k"] != "=":
                continue
            if s["p"][0] == g and s["p"][1]:
                if s["p"][1] != ["*"]:
                    return None
                out.append((bb, s["r"]))
            q = s["r"]
            if (q["k"] in ("ref", "rawptr") and q["p"][0] == g) or (q["k"] == "use" and q["o"]["k"] == "move" and q["o"]["p"][0] == g):
                o = stores(F, b, s["p"][0], n + 1) if not s["p"][1] else None
                if o is None:
                    return None
                out += o
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            if t["d"][0] == g and t["d"][1]:
                return None
            if any(a["k"] in ("copy", "move") and a["p"][0] == g for a in t["a"]):
                if last(F.nice(callee(t) or "?")) not in ("deref_mut", "deref", "drop") or t["d"][1]:
                    return None
                o = stores(F, b, t["d"][0], n + 1)
                if o is None:
                    return None
                out += o
    return out


class Values:
    def __init__(self, F, C, late=()):
        self.F, self.C = F, C
        self.late = late  # fields that get their value after construction, before anything reads them
        self.G = ctx.get(F)
        self.M = mods.get(F)
        self.memo = {}
        self.asked = set()
        self._made = None
        self._writes = None

    # ------------------------------------------------------------ tables
    def made(self, d):
        if self._made is None:
            self._made = {}
            for k, b in self.F.bodies.items():
                for bb in b.reach:
                    for s in b.blocks[bb]["s"]:
                        if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("ak") == "closure":
                            self._made.setdefault(s["r"]["d"], []).append((b, bb, s["r"]))
        return self._made.get(d, [])

    def writes(self, fld):
        """Places that change a field after construction: [(body, block, rvalue or None when anything may be written)]."""
        if self._writes is None:
            W = self._writes = {}
            F = self.F
            for k, b in F.bodies.items():
                x = X.of(F, b)
                for bb in b.reach:
                    for s in b.blocks[bb]["s"]:
                        if s["k"] != "=":
                            continue
                        if s["p"][1]:
                            fs, t = mods.path_fields(F, b, s["p"])
                            if fs and s["p"][1][-1][0] == "f":
                                W.setdefault(fs[-1], []).append((b, bb, s["r"]))
                        r = s["r"]
                        if r["k"] in ("ref", "rawptr") and r["p"][1] and r["p"][1][-1][0] == "f":
                            fs, t = mods.path_fields(F, b, r["p"])
                            if fs and (r.get("mut") or self.interior(t)):
                                W.setdefault(fs[-1], []).append((b, bb, ("ref", s["p"][0])))
                    t = b.blocks[bb]["t"]
                    if t["k"] == "call" and t["d"][1]:
                        fs, ty = mods.path_fields(F, b, t["d"])
                        if fs and t["d"][1][-1][0] == "f":
                            W.setdefault(fs[-1], []).append((b, bb, t))
        return self._writes.get(fld, [])

    def interior(self, t):
        k = self.F.types[t] if t is not None else {"k": "?"}
        return k["k"] == "adt" and k["d"].split("::")[-1] in ("RefCell", "Cell", "Mutex", "RwLock")

    # ------------------------------------------------------------ facts
    def restrict(self, x, bb, e, vs):
        """vs without the variants the facts at bb exclude (numbers are discriminants)."""
        for f in x.facts(bb):
            if f[0] in ("Eq", "Ne", "in") and isinstance(f[1], tuple) and f[1] and f[1][0] == "discr" and f[1][1] == e:
                if f[0] == "in":
                    s = set(f[2])
                elif f[2][0] == "c" and isinstance(f[2][1], int):
                    s = {f[2][1]}
                elif f[2][0] == "discr" and f[2][1][0] == "agg" and f[2][1][2] is not None:
                    s = {self.discr(f[2][1], f[2][1][2])}
                else:
                    continue
                vs = vs - s if f[0] == "Ne" else vs & s
            elif f[0] in ("Eq", "Ne") and (f[1] == e or f[2] == e):
                o = f[2] if f[1] == e else f[1]
                if o[0] == "agg" and o[2] is not None and not o[3]:
                    n = o[2]
                    vs = vs - {self.discr(o, n)} if f[0] == "Ne" else vs & {self.discr(o, n)}
        return vs

    def discr(self, agg, n):
        d = agg[1].rsplit("::", 1)[0]
        a = self.F.adts.get(d)
        return int(a["v"][n]["discr"]) if a else n

    def universe(self, adt):
        return {int(v["discr"]) for v in self.F.adts[adt]["v"]}

    # ------------------------------------------------------------ queries
    def at(self, b, bb, e, adt):
        """Discriminants e can have when block bb of b runs."""
        x = X.of(self.F, b)
        u = self.universe(adt)
        vs = self.restrict(x, bb, e, set(u))
        if not vs:
            return vs
        p = self.of(b, bb, e, adt, (), ())
        return vs if p is ALL else vs & p

    def of(self, b, bb, e, adt, wrap, stack):
        """Discriminants e (or, with wrap, what is inside the Ok/Some it is) can have at bb; ALL when unknown."""
        key = (b.id, bb, e, wrap)
        if key in stack:
            return set()
        if len(stack) > 60:
            return ALL
        if key in self.memo:
            return self.memo[key]
        r = self.flow(b, bb, e, adt, wrap, stack + (key,))
        if not wrap:
            x = X.of(self.F, b)
            u = self.restrict(x, bb, e, set(self.universe(adt)))
            r = (ALL if len(u) == len(self.universe(adt)) else u) if r is ALL else r & u
        if not stack or r is ALL:
            self.memo[key] = r
        return r

    def flow(self, b, bb, e, adt, wrap, stack):
        F = self.F
        x = X.of(F, b)
        k = e[0]
        if k == "agg":
            if e[1].startswith(adt + "::") and not wrap:
                return {self.discr(e, e[2])}
            if e[1].split("::")[-1] in ("Ok", "Some") and e[3]:
                return self.of(b, bb, e[3][0], adt, wrap[1:] if wrap and wrap[0] == "in" else wrap, stack)
            if e[1] == "tuple" and wrap and wrap[0] != "in":
                return self.of(b, bb, e[3][wrap[0]], adt, wrap[1:], stack)
            if e[1].split("::")[-1] in ("Err", "None"):
                return set()
            return ALL
        if k == "p":
            return self.param(b, e[1], adt, wrap, stack)
        if k == "l":
            r = set()
            ds = b.defs.get(e[1], [])
            if e[1] in x.mutref or not ds or e[1] <= b.argc:
                return ALL
            for db, i, rv in ds:
                v = x.rv(rv, db, e[1])
                if v == e:
                    return ALL
                r = union(r, self.of(b, db, v, adt, wrap, stack))
            return r
        if k in ("some", "down"):
            return self.of(b, bb, e[1], adt, ("in",) + wrap, stack)
        if k == "call":
            n = e[1]
            if n in ("branch", "ok_or", "ok_or_else", "map_err", "ok", "filter", "copied", "as_ref", "unwrap_or_default") and len(e) > 2:
                return self.of(b, bb, e[2], adt, wrap, stack)
            if n == "map" and len(e) > 3 and wrap and wrap[0] == "in" and e[3][0] == "agg" and e[3][1] == "closure" and e[3][2] in F.bodies:
                return self.ret(F.bodies[e[3][2]], adt, wrap[1:], stack)
            if n == "unwrap_or":
                return union(self.of(b, bb, e[2], adt, ("in",) + wrap, stack), self.of(b, bb, e[3], adt, wrap, stack))
            return ALL
        if k == "call@" or k == "pure":
            return self.result(b, bb, e, adt, wrap, stack)
        if k == "f":
            return self.field(b, bb, e, adt, wrap, stack)
        if k == "cdef":
            return self.const(e[1], adt, stack)
        return ALL

    def const(self, d, adt, stack):
        F = self.F
        cs = [F.bodies[i] for i, s in F.impl_of.get(d, ()) if i in F.bodies]
        if d in F.bodies:
            cs.append(F.bodies[d])
        if not cs:
            return ALL
        r = set()
        for c in cs:
            r = union(r, self.ret(c, adt, (), stack))
        return r

    def ret(self, c, adt, wrap, stack):
        x = X.of(self.F, c)
        r = set()
        for db, i, rv in c.defs.get(0, []):
            if rv["k"] == "call" and last(self.F.nice(callee(rv) or "?")) == "from_residual":
                continue
            v = x.rv(rv, db, 0)
            r = union(r, self.of(c, db, v, adt, wrap, stack))
        return r

    def result(self, b, bb, e, adt, wrap, stack):
        F = self.F
        if k_pure(e):
            return self.ret(F.bodies[e[1]], adt, wrap, stack) if e[1] in F.bodies else ALL
        t = b.blocks[e[1]]["t"]
        if t["k"] != "call":
            return ALL
        n = last(F.nice(e[2]))
        if e[2] not in F.bodies:
            if n in ("new", "from", "into") and len(e) == 4:
                return self.of(b, e[1], e[3], adt, wrap, stack)
            if n in ("context", "with_context", "inspect_err") and len(e) > 3:
                return self.of(b, e[1], e[3], adt, wrap, stack)
        r = set()
        tg = set()
        for S in {m[1] for m in self.G.nodes() if m[0] == b.id} or {self.G.self_of(b.id)}:
            tg |= {f for f, T in self.G.targets(t, S, b)}
        if not tg:
            return ALL
        for f in tg:
            if f not in F.bodies:
                return ALL
            r = union(r, self.ret(F.bodies[f], adt, wrap, stack))
        return r

    def field(self, b, bb, e, adt, wrap, stack):
        F = self.F
        if b.kind == "closure" and e[1] == ("p", 1):
            r = set()
            for pb, pbb, agg in self.made(b.id):
                if e[2] >= len(agg["ops"]):
                    return ALL
                r = union(r, self.of(pb, pbb, X.of(F, pb).op(agg["ops"][e[2]]), adt, wrap, stack))
            return r if self.made(b.id) else ALL
        ty = self.type_of(b, e[1])
        if ty is None:
            return ALL
        _, t = mods.strip(F, ty)
        if t["k"] == "tuple":
            return self.of(b, bb, e[1], adt, (e[2],) + wrap, stack)
        while t["k"] == "adt" and t["d"].endswith("boxed::Box") and t["a"]:
            _, t = mods.strip(F, t["a"][0])
        if t["k"] != "adt" or t["d"] not in F.adts or F.adts[t["d"]]["kind"] != "struct":
            return ALL
        return self.contents(t["d"], e[2], adt, wrap, stack)

    def type_of(self, b, e, n=0):
        """Type of the value an expression stands for."""
        F = self.F
        if n > 10:
            return None
        if e[0] in ("p", "l"):
            return b.lty(e[1])
        if e[0] == "f":
            if b.kind == "closure" and e[1] == ("p", 1):
                for pb, pbb, agg in self.made(b.id):
                    if e[2] < len(agg["ops"]):
                        return pb.op_ty(agg["ops"][e[2]])
                return None
            t = self.type_of(b, e[1], n + 1)
            if t is not None:
                _, k = mods.strip(F, t)
                if k["k"] == "adt" and k["d"].endswith("boxed::Box") and k["a"]:
                    t = k["a"][0]
                    if e[2] == 0:
                        return t
                    _, k = mods.strip(F, t)
                if k["k"] == "adt" and k["d"] in F.adts and F.adts[k["d"]]["kind"] == "struct":
                    fl = F.adts[k["d"]]["v"][0]["f"]
                    return fl[e[2]].get("t") if e[2] < len(fl) else None
                if k["k"] == "tuple" and e[2] < len(k["a"]):
                    return k["a"][e[2]]
        if e[0] in ("some", "down"):
            return self.inside(b, e[1], n + 1)
        if e[0] == "call@" and b.blocks[e[1]]["t"]["k"] == "call":
            return b.place_ty(b.blocks[e[1]]["t"]["d"])
        import bounds
        return bounds.B(F, X.of(F, b), []).seq_type(e)

    def inside(self, b, e, n):
        """Type of the content of an Option, a Result or a cell."""
        F = self.F
        if n > 10:
            return None
        while e[0] == "call" and e[1] in ("branch", "ok_or", "ok_or_else", "map_err", "ok", "filter", "get", "get_mut") and len(e) == (3 if e[1].startswith("get") or e[1] in ("branch", "ok") else 4):
            e = e[2]
        t = self.type_of(b, e, n)
        if t is None:
            return None
        _, k = mods.strip(F, t)
        if k["k"] == "adt" and k["d"].split("::")[-1] in ("Option", "Result", "OnceCell", "OnceLock") and k["a"]:
            return k["a"][0]
        return None

    def contents(self, d, i, adt, wrap, stack):
        F = self.F
        cons, wr = self.M.constructions()
        r = set()
        for cb, cbb, agg in cons.get(d, ()):
            if i >= len(agg["ops"]):
                return ALL
            if (d, i) in self.late:
                continue
            r = union(r, self.of(cb, cbb, X.of(F, cb).op(agg["ops"][i]), adt, wrap, stack))
        for wb, wbb, rv in self.writes((d, i)):
            if isinstance(rv, tuple):
                r = union(r, self.through(wb, wbb, rv[1], adt, wrap, stack))
            else:
                r = union(r, self.of(wb, wbb, X.of(F, wb).rv(rv, wbb, -1), adt, wrap, stack))
            if r is ALL:
                return r
        return r

    def through(self, b, bb, l, adt, wrap, stack):
        """What is stored through a reference to a field held in local l."""
        F = self.F
        x = X.of(F, b)
        r = set()
        for cb, t in b.calls():
            for j, a in enumerate(t["a"]):
                if a["k"] in ("copy", "move") and a["p"][0] == l:
                    n = last(F.nice(callee(t) or "?"))
                    if n in ("borrow", "get", "try_borrow", "fmt", "clone", "eq", "ne", "field"):
                        continue
                    if n in ("borrow_mut", "get_mut") and j == 0 and not t["d"][1]:
                        st = stores(F, b, t["d"][0])
                        if st is None:
                            return ALL
                        for sb, rv in st:
                            r = union(r, self.of(b, sb, x.rv(rv, sb, -1), adt, wrap, stack))
                        continue
                    if n in ("replace", "set") and j == 0 and len(t["a"]) == 2:
                        r = union(r, self.of(b, cb, x.op(t["a"][1]), adt, wrap, stack))
                        continue
                    return ALL
        for sb in b.reach:
            for s in b.blocks[sb]["s"]:
                if s["k"] != "=":
                    continue
                if s["p"][0] == l and s["p"][1]:
                    r = union(r, self.of(b, sb, x.rv(s["r"], sb, -1), adt, wrap, stack))
                q = s["r"]
                if q["k"] in ("ref", "rawptr") and q["p"][0] == l:
                    if q.get("mut"):
                        return ALL
                    k = F.types[b.lty(l)]
                    if k["k"] == "ref" and not k.get("mut") and s["p"][0] != l:
                        r = union(r, self.through(b, sb, s["p"][0], adt, wrap, stack)) if len(stack) < 50 else ALL
                for o in (q.get("o"),) + tuple(q.get("ops", ()) if q["k"] == "agg" else ()):
                    if isinstance(o, dict) and o.get("k") in ("copy", "move") and o["p"][0] == l and not o["p"][1]:
                        k = F.types[b.lty(l)]
                        if k.get("mut"):
                            return ALL
                        inner = F.types[k["t"]] if k["k"] == "ref" else k
                        if q["k"] == "cast" and "dyn" in F.tys(q["t"]):
                            continue
                        if q["k"] == "use" and not s["p"][1]:
                            r = union(r, self.through(b, sb, s["p"][0], adt, wrap, stack))
                        elif q["k"] == "cast":
                            continue
                        else:
                            return ALL
        return r

    def param(self, b, i, adt, wrap, stack):
        F = self.F
        if b.kind == "closure":
            return ALL
        fi = F.fns.get(b.id, {})
        m, unk = callers(F, self.C)
        if fi.get("export") or fi.get("sym") or b.id in unk:
            return ALL
        sites = list(m.get(b.id, ()))
        if fi.get("trait_item") or fi.get("in_trait"):
            sites = self.sites(b.id)
        r = set()
        for cb, cbb, t in sites:
            if i - 1 >= len(t["a"]):
                return ALL
            r = union(r, self.of(cb, cbb, X.of(F, cb).op(t["a"][i - 1]), adt, wrap, stack))
        return r

    def sites(self, f):
        """All calls that can reach f, through its trait too."""
        if not hasattr(self, "_sites"):
            self._sites = {}
            for n in self.G.nodes():
                b = self.F.bodies[n[0]]
                for bb, t in b.calls():
                    for g, T in self.G.targets(t, n[1], b):
                        self._sites.setdefault(g, {})[(b.id, bb)] = (b, bb, t)
        return list(self._sites.get(f, {}).values())


def k_pure(e):
    return e[0] == "pure"
