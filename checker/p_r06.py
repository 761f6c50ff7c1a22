"""R06: run-time-checked borrows and lazy initialisers never conflict."""
import mir, cg, ctx
from expr import X, last

CELL = "core::cell::RefCell"
SHARED = {"borrow": True, "try_borrow": True}
EXCL = {"borrow_mut", "replace", "replace_with", "take", "swap"}


def strip(F, t):
    while t is not None and F.types[t]["k"] in ("ref", "ptr"):
        t = F.types[t]["t"]
    return t


def adt_of(F, t):
    t = strip(F, t)
    if t is None:
        return None
    k = F.types[t]
    return k["d"] if k["k"] == "adt" else None


def place_steps(b, p):
    """(type before, projection) pairs along a place."""
    cur = [p[0], []]
    for e in p[1]:
        yield b.place_ty([cur[0], [tuple(z) if not isinstance(z, str) else z for z in cur[1]]]), e
        cur[1].append(e)


class Classes:
    """Names the cell a reference points to: (struct, field), or its content type when the field is not known."""

    def __init__(self, F, G):
        self.F, self.G = F, G

    def of(self, b, o, depth=0):
        if o["k"] not in ("copy", "move") or depth > 10:
            return None
        return self.place(b, o["p"], depth)

    def place(self, b, p, depth=0):
        F = self.F
        # last field of a local struct
        lastf = None
        for t, e in place_steps(b, p):
            if not isinstance(e, str) and e[0] == "f":
                d = None
                tt = F.types[t] if t is not None else None
                if tt and tt["k"] == "adt" and tt["d"] in F.adts and F.adts[tt["d"]].get("local"):
                    a = F.adts[tt["d"]]
                    fs = a["v"][0]["f"]
                    d = "%s.%s" % (tt["d"].replace("libopenraw::", ""), fs[e[1]]["n"] if e[1] < len(fs) else e[1])
                lastf = d or lastf if d or not lastf else lastf
                if d:
                    lastf = d
        if lastf:
            return lastf
        l = p[0]
        if b.kind == "closure" and l == 1:
            return None
        d = b.defs.get(l, [])
        if len(d) != 1 or 1 <= l <= b.argc:
            return None
        bb, i, rv = d[0]
        if rv["k"] == "ref":
            return self.place(b, rv["p"], depth + 1)
        if rv["k"] in ("use", "cast"):
            return self.of(b, rv["o"], depth + 1)
        return None


def content(F, t):
    t = strip(F, t)
    k = F.types[t] if t is not None else None
    if k and k["k"] == "adt" and k["a"]:
        return F.types[k["a"][0]]["s"] if isinstance(k["a"][0], int) else None
    return None


def has_guard(F, t, seen=None):
    """The type holds a Ref or RefMut by value."""
    seen = seen if seen is not None else set()
    if t is None or t in seen:
        return False
    seen.add(t)
    k = F.types[t]
    if k["k"] == "adt":
        if k["d"] in ("core::cell::Ref", "core::cell::RefMut"):
            return True
        return any(has_guard(F, a, seen) for a in k["a"] if isinstance(a, int))
    if k["k"] == "tuple":
        return any(has_guard(F, a, seen) for a in k["a"])
    return False


class Borrows:
    def __init__(self, F):
        self.F = F
        self.G = ctx.get(F)
        self.K = Classes(F, self.G)
        self.Y = Reach(F, self.G)
        self.direct = {}
        self.trans = {}

    def cell_op(self, b, t):
        """(class, exclusive) of a RefCell operation."""
        F = self.F
        f = t.get("res") or t.get("f") or ""
        n = last(F.nice(f))
        if t["a"] and adt_of(F, b.op_ty(t["a"][0])) == CELL and (f.startswith("core::cell::")) and (n in SHARED or n in EXCL):
            c = self.K.of(b, t["a"][0])
            ct = content(F, b.op_ty(t["a"][0]))
            return (c or "?", ct, n not in SHARED)
        return None

    def once_op(self, b, t):
        """class of a lazy initialiser run by this call."""
        F = self.F
        f = t.get("res") or t.get("f") or ""
        n = last(F.nice(f))
        d = adt_of(F, b.op_ty(t["a"][0])) if t["a"] else None
        if d and d.split("::")[-1] in ("OnceCell", "OnceLock", "Lazy", "LazyCell", "LazyLock") and n in ("get_or_init", "get_or_try_init", "force", "set", "try_insert"):
            c = self.K.of(b, t["a"][0])
            return c or "?", content(F, b.op_ty(t["a"][0])), n
        return None

    def events(self, node):
        """Borrow and initialiser classes node itself performs."""
        if node in self.direct:
            return self.direct[node]
        b = self.F.bodies[node[0]]
        ev = []
        for bb, t in self.G.calls(node):
            c = self.cell_op(b, t)
            if c:
                ev.append(("cell",) + c + (t["l"],))
            o = self.once_op(b, t)
            if o:
                ev.append(("once", o[0], o[1], True, t["l"]))
        self.direct[node] = ev
        return ev

    def below(self, nodes):
        """Everything reachable from nodes: [(event, node, path map)]."""
        seen = self.G.reach(list(nodes))
        out = []
        for n in seen:
            for e in self.events(n):
                out.append((e, n))
        return seen, out

    def handed(self, b, t, S):
        """Functions handed to a call."""
        out = []
        for a in t["a"]:
            ty = b.op_ty(a)
            if ty is not None:
                out += [n + ((),) for n in self.G.type_values(ty, S) | closures_in(self.F, b, a, S)]
            out += [n + ((),) for n in self.G.value(a)]
        return out

    def returned(self, nodes):
        """Cells a function returning a guard has borrowed."""
        out = set()
        todo = list(nodes)
        seen = set()
        while todo:
            n = todo.pop()
            if n in seen or n[0] not in self.F.bodies:
                continue
            seen.add(n)
            b = self.F.bodies[n[0]]
            for bb, t in self.G.calls(n):
                c = self.cell_op(b, t)
                if c and has_guard(self.F, b.place_ty(t["d"])):
                    out.add(c)
                elif not c and has_guard(self.F, b.place_ty(t["d"])):
                    # a function of the standard library returns no guard of its own making,
                    # only those of the closures it is handed
                    std = (t.get("res") or "").split("::")[0] in ("core", "std", "alloc")
                    todo += ([] if std else list(self.G.callees(n, t))) + self.handed(b, t, n[1])
        return out


def owned_root(b, o, depth=0):
    """The local variable an operand refers to, or has been moved out of, when the object is that variable's own memory."""
    if o["k"] not in ("copy", "move") or depth > 8:
        return None
    return root_of(b, o["p"], depth)


def root_of(b, p, depth):
    l = p[0]
    if "*" in p[1]:
        # a reference to a local variable, reborrowed
        d = b.defs.get(l, [])
        if len(d) == 1 and d[0][2] and d[0][2]["k"] == "ref" and p[1][0] == "*" and "*" not in p[1][1:]:
            return root_of(b, d[0][2]["p"], depth + 1)
        return None
    if 1 <= l <= b.argc:
        return None
    d = b.defs.get(l, [])
    if len(d) == 1 and d[0][2]:
        rv = d[0][2]
        if rv["k"] == "ref":
            return root_of(b, rv["p"], depth + 1)
        if rv["k"] in ("use", "cast") and rv["o"]["k"] in ("copy", "move"):
            k = rv["o"]["p"]
            r = root_of(b, k, depth + 1)
            return r
    return l


def held_roots(b, t):
    """Variables of this function whose own memory holds the borrowed cell."""
    return {owned_root(b, a) for a in t["a"]}


class Reach:
    """Which structs can be reached from a value, owned by it or through pointers."""

    def __init__(self, F, G):
        self.F, self.G = F, G
        self.m = {}
        # structs of the crate that stand for the type parameters (other than Self) of a function
        self.inst = {}
        up = {}
        for b in F.bodies.values():
            me = b.id.split("::{closure")[0]
            for bb, t in b.calls():
                self.passed(up, me, t.get("f"), t.get("res"), (t.get("ta") or [])[1 if t.get("trait") else 0:])
        for k in F.types:
            if k["k"] == "fndef":
                self.passed(up, None, k["d"], k.get("res"), k.get("a") or ())
        more = True
        while more:
            more = False
            for g, fs in up.items():
                for f in fs:
                    new = self.inst.get(f, set()) - self.inst.get(g, set())
                    if new:
                        self.inst.setdefault(g, set()).update(new)
                        more = True

    def passed(self, up, me, f, res, args):
        """A function is called, or used as a value, with these type arguments."""
        if not (f or "").startswith("libopenraw"):
            return
        for g in {f, res} | {item for item, sid in self.F.impl_of.get(f, ())}:
            for a in args:
                if isinstance(a, int):
                    self.inst.setdefault(g, set()).update(self.G.C.adts_in(a))
                    if me and self.has_param(a):
                        up.setdefault(g, set()).add(me)

    def has_param(self, ty, depth=0):
        k = self.F.types[ty]
        if k["k"] == "param" or depth > 6:
            return True
        inner = list(k.get("a") or ()) if k["k"] in ("adt", "tuple") else [k["t"]] if k["k"] in ("ref", "ptr", "slice", "array") else []
        return any(self.has_param(x, depth + 1) for x in inner if isinstance(x, int))

    def of(self, ty, b):
        """(owned, pointed to): local structs that are part of the value, or reached through a reference or shared pointer."""
        me = b.id.split("::{closure")[0]
        if (ty, me) in self.m:
            return self.m[ty, me]
        own, shared = set(), set()
        # a parameter in the type of a field stands for an argument of the struct, which is followed as such
        todo, seen = [(ty, False, False)], set()
        while todo:
            t, sh, field = todo.pop()
            if t is None or (t, sh, field) in seen:
                continue
            seen.add((t, sh, field))
            k = self.F.types[t]
            kk = k["k"]
            if kk == "adt":
                d = k["d"]
                if d.rsplit("::", 1)[-1] in ("Rc", "Arc", "Weak", "Ref", "RefMut"):
                    sh = True
                if d in self.F.adts and self.F.adts[d].get("local"):
                    (shared if sh else own).add(d)
                    for v in self.F.adts[d]["v"]:
                        for f in v["f"]:
                            todo.append((f.get("t"), sh, True))
                todo += [(a, sh, field) for a in k["a"] if isinstance(a, int)]
            elif kk in ("ref", "ptr"):
                todo.append((k["t"], True, field))
            elif kk in ("slice", "array"):
                todo.append((k["t"], sh, field))
            elif kk == "tuple":
                todo += [(a, sh, field) for a in k["a"]]
            elif kk == "param" and field:
                continue
            elif kk in ("dyn", "param", "closure", "fnptr", "other"):
                ads = set()
                if kk == "dyn":
                    for x in k["d"]:
                        ads |= set(self.G.impl_types(x)) | self.G.coerced.get(x, set())
                    if not any(x in self.G.local_traits for x in k["d"]):
                        ads.add("*")
                elif kk == "param":
                    ads |= self.inst.get(me, set())
                for a in ads:
                    if a in self.F.adts:
                        (shared if sh else own).add(a)
                        for v in self.F.adts[a]["v"]:
                            for f in v["f"]:
                                todo.append((f.get("t"), sh, True))
                    elif a:
                        shared.add("*")
        self.m[ty, me] = (own, shared)
        return self.m[ty, me]

    def may_touch(self, b, t, d, held):
        """A call may reach an instance of struct d other than one inside a variable of this function."""
        todo = list(t["a"])
        f = t.get("f")
        while todo:
            a = todo.pop()
            if a["k"] not in ("copy", "move"):
                continue
            ty = b.op_ty(a)
            tt = self.F.types[ty] if ty is not None else None
            while tt and tt["k"] in ("ref", "ptr"):
                tt = self.F.types[tt["t"]]
            if tt and tt["k"] == "closure":
                ops = None
                for l in [a["p"][0]] + [x for x in [owned_root(b, a)] if x]:
                    for bb, i, rv in b.defs.get(l, []):
                        if rv and rv["k"] == "agg" and rv.get("ak") == "closure":
                            ops = rv["ops"]
                if ops is None:
                    return True
                todo += ops
                continue
            own, shared = self.of(ty, b)
            if "*" in shared:
                return True
            r = owned_root(b, a)
            if r is not None and r not in held:
                own, shared = self.of(b.lty(r), b)
                if d in shared or "*" in shared:
                    return True
            elif d in own or d in shared:
                return True
        return False


def same(c1, t1, c2, t2):
    if c1 == "?" or c2 == "?":
        return t1 == t2
    return c1 == c2


def run(F, R):
    R.rule("borrow-held", "while a RefCell guard is alive, nothing called (through helpers, closures, trait objects and callbacks into the crate) borrows the same cell again, unless both borrows are shared")
    R.rule("init-reentry", "the initialiser of a lazily initialised part does not, through anything it calls, initialise the same part again")
    Bw = Borrows(F)
    G = Bw.G
    live = G.nodes()
    R.note("functions reachable with the type they run for: %d" % len(live))
    cells, onces = set(), set()
    for node in sorted(live, key=str):
        b = F.bodies[node[0]]
        for e in Bw.events(node):
            (cells if e[0] == "cell" else onces).add(e[1] if e[1] != "?" else "?" + str(e[2]))
        guards(F, R, Bw, node, b)
        lazies(F, R, Bw, node, b)
    R.note("cells: " + ", ".join(sorted(cells)))
    R.note("lazily initialised parts: " + ", ".join(sorted(onces)))
    R.floor("borrow-held", 40)
    R.floor("init-reentry", 30)


def guards(F, R, Bw, node, b):
    G, S = Bw.G, node[1]
    births = []
    for bb, t in G.calls(node):
        if not has_guard(F, b.place_ty(t["d"])):
            continue
        c = Bw.cell_op(b, t)
        if c:
            births.append((bb, t, {c}))
            continue
        std = (t.get("res") or "").split("::")[0] in ("core", "std", "alloc")
        tg = ([] if std else list(G.callees(node, t))) + Bw.handed(b, t, S)
        carried = any(a["k"] == "move" and has_guard(F, b.op_ty(a)) for a in t["a"])
        if carried:
            continue
        cs = Bw.returned(tg)
        if cs:
            births.append((bb, t, cs))
    if not births:
        return
    for bb, t, cs in births:
        live = set(G.live(node))
        region = [x for x in alive(F, b, bb, t) if x in live]
        name = "/".join(sorted({c[0] if c[0] != "?" else c[1] for c in cs}))
        bad = None
        for cb in region:
            ct = b.blocks[cb]["t"]
            if ct["k"] not in ("call", "drop"):
                continue
            if ct["k"] == "drop":
                continue
            hit = conflict(F, Bw, node, b, ct, cs, held_roots(b, t))
            if hit:
                bad = (ct, hit)
                break
        if bad:
            ct, (cls, path) = bad
            R.bad("borrow-held", "%s|%s|%s" % (b.nice, name, cls), "%s holds a borrow of %s while it calls %s, which borrows it again: %s" % (b.nice, name, last(F.nice(ct.get("res") or ct.get("f") or "?")), path), "%s:%d" % (b.file, ct["l"]))
        else:
            R.ok("borrow-held")


def conflict(F, Bw, node, b, t, cs, held):
    G, S = Bw.G, node[1]
    c = Bw.cell_op(b, t)
    if c:
        for (k, ty, ex) in cs:
            if same(k, ty, c[0], c[1]) and (ex or c[2]):
                return k if k != "?" else ty, "directly"
        return None
    tg = set(G.callees(node, t)) | set(Bw.handed(b, t, S))
    if not tg:
        return None
    key = frozenset(tg)
    seen, evs = Bw.trans.get(key) or Bw.trans.setdefault(key, Bw.below(tg))
    for e, n in evs:
        if e[0] != "cell":
            continue
        for (k, ty, ex) in cs:
            if same(k, ty, e[1], e[2]) and (ex or e[3]):
                if k != "?" and e[1] != "?" and not Bw.Y.may_touch(b, t, "libopenraw::" + k.rsplit(".", 1)[0], held):
                    continue
                return k if k != "?" else ty, G.path(seen, n)
    return None


def closures_in(F, b, o, S):
    """Closures captured inside a value handed over (an iterator adaptor, a boxed closure)."""
    out = set()
    ty = b.op_ty(o)
    todo, seen = [ty], set()
    while todo:
        t = todo.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        k = F.types[t]
        if k["k"] == "closure":
            out.add((k["d"], S))
        elif k["k"] == "adt":
            todo += [a for a in k["a"] if isinstance(a, int)]
        elif k["k"] in ("ref", "ptr", "slice", "array"):
            todo.append(k["t"])
        elif k["k"] == "tuple":
            todo += k["a"]
    return out


def alive(F, b, bb, t):
    """Blocks whose terminator runs while the guard made by call t (in block bb) is alive."""
    start = t.get("t")
    if start is None:
        return []
    out = []
    todo = [(start, frozenset([t["d"][0]]))]
    seen = set()
    while todo:
        x, hold = todo.pop()
        if (x, hold) in seen:
            continue
        seen.add((x, hold))
        blk = b.blocks[x]
        h = set(hold)
        for s in blk["s"]:
            if s["k"] == "=":
                r = s["r"]
                moved = [o["p"][0] for o in ([r["o"]] if r["k"] in ("use", "cast") else r["ops"] if r["k"] == "agg" else []) if o["k"] == "move" and o["p"][0] in h]
                if moved:
                    whole = [o["p"][0] for o in ([r["o"]] if r["k"] in ("use", "cast") else r["ops"]) if o["k"] == "move" and o["p"][0] in h and not o["p"][1]]
                    guard = has_guard(F, b.place_ty(s["p"])) or has_guard(F, b.lty(s["p"][0]))
                    h -= set(whole)
                    if guard:
                        # parts of a value that held the guard
                        for o in ([r["o"]] if r["k"] in ("use", "cast") else r["ops"]):
                            if o["k"] == "move" and o["p"][0] in h and o["p"][1] and has_guard(F, b.op_ty(o)):
                                h.discard(o["p"][0])
                        h.add(s["p"][0])
            elif s["k"] in ("dead", "storagedead") and s.get("v") in h:
                h.discard(s.get("v"))
        tm = blk["t"]
        if tm["k"] == "drop":
            if tm["p"][0] in h and not tm["p"][1]:
                h.discard(tm["p"][0])
        elif tm["k"] == "call":
            if h:
                out.append(x)
            moved = {o["p"][0] for o in tm["a"] if o["k"] == "move" and o["p"][0] in h and (not o["p"][1] or has_guard(F, b.op_ty(o)))}
            h -= moved
            if moved and has_guard(F, b.place_ty(tm["d"])):
                h.add(tm["d"][0])
        if not h:
            continue
        for s in b.succ[x]:
            todo.append((s, frozenset(h)))
    return sorted(set(out))


def lazies(F, R, Bw, node, b):
    G, S = Bw.G, node[1]
    for bb, t in G.calls(node):
        o = Bw.once_op(b, t)
        if not o:
            continue
        cls, ct, n = o
        tg = set()
        for a in t["a"][1:]:
            ty = b.op_ty(a)
            if ty is not None:
                tg |= {n + ((),) for n in closures_in(F, b, a, S) | G.type_values(ty, S)}
        if not tg:
            R.ok("init-reentry")
            continue
        key = frozenset(tg)
        seen, evs = Bw.trans.get(key) or Bw.trans.setdefault(key, Bw.below(tg))
        hit = None
        for e, nn in evs:
            if e[0] == "once" and same(cls, ct, e[1], e[2]):
                hit = nn
                break
        name = cls if cls != "?" else ct
        if hit:
            R.bad("init-reentry", "%s|%s" % (b.nice, name), "the initialiser of %s, run for %s, can come back to it: %s" % (name, S, G.path(seen, hit)), "%s:%d" % (b.file, t["l"]))
        else:
            R.ok("init-reentry")
