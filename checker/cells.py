"""Which write-once cells are known to be filled at a point of the program.

A cell is a field of a type of the library.  Once filled it stays filled, so the set of filled cells only grows along a path.
A function's summary says which cells are filled when it returns, and which when it returns a usable value (Ok, Some).
"""
import ctx, mods
from expr import X, last
from term import callee
from inter import callers, public

CELL = ("once::OnceCell", "once_cell::OnceCell", "OnceLock", "cell::OnceCell")
TOP = None
PASS = {"context", "with_context", "inspect_err", "inspect", "copied", "cloned", "branch", "or_else_err"}
COMB = {"map", "and_then", "map_or", "map_or_else", "filter", "inspect", "is_some_and", "is_ok_and", "then", "and"}


def meet(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


def join(a, b):
    return TOP if a is TOP or b is TOP else a | b


def is_cell(F, t):
    x = F.types[t]
    while x["k"] in ("ref", "ptr"):
        x = F.types[x["t"]]
    return x["k"] == "adt" and x["d"].split("<")[0].split("::")[-1] in ("OnceCell", "OnceLock")


class Cells:
    def __init__(self, F, C):
        self.F, self.C = F, C
        self.G = ctx.get(F)
        self.sum = {}
        self.tg = {}
        self.entry = {}
        self.states = {}
        self.parent = {}
        self.solve()

    # ------------------------------------------------------------ cells
    def cell_of(self, b, o, n=0):
        """The field of a library type a cell operand refers to."""
        if o["k"] not in ("copy", "move") or n > 8:
            return None
        p = o["p"]
        fs, t = mods.path_fields(self.F, b, p)
        if fs and t is not None and is_cell(self.F, t) and fs[-1][0] in self.F.adts and self.F.types[t]["k"] == "adt":
            return fs[-1]
        if [e for e in p[1] if e != "*"]:
            return None
        d = b.defs.get(p[0], [])
        if len(d) != 1:
            return None
        r = d[0][2]
        if r["k"] in ("ref", "rawptr"):
            return self.cell_of(b, {"k": "copy", "p": r["p"]}, n + 1)
        if r["k"] in ("use", "cast"):
            return self.cell_of(b, r["o"], n + 1)
        return None

    def targets(self, b, S, bb):
        k = (b.id, S, bb)
        if k not in self.tg:
            self.tg[k] = [n for n in self.G.targets(b.blocks[bb]["t"], S, b)]
        return self.tg[k]

    def of_targets(self, b, S, bb, i):
        """What all the functions a call may run agree on."""
        ts = self.targets(b, S, bb)
        if not ts:
            return frozenset()
        r = TOP
        for f, T in ts:
            if f not in self.F.bodies:
                return frozenset()
            r = meet(r, self.summary((f, T))[i])
        return r

    def summary(self, n):
        if n in self.sum:
            return self.sum[n]
        for k in ((n[0], None), (n[0], self.G.self_of(n[0]))):
            if k in self.sum:
                return self.sum[k]
        return (frozenset(), frozenset())

    def on_call(self, b, S, bb, t):
        """Cells filled when the call returns at all."""
        f = callee(t)
        if not f:
            return frozenset()
        n = last(self.F.nice(f))
        if n in ("get_or_init", "set", "insert", "get_mut_or_init") and t["a"]:
            k = self.cell_of(b, t["a"][0])
            return frozenset([k]) if k and is_cell(self.F, b.op_ty(t["a"][0])) else frozenset()
        return self.of_targets(b, S, bb, 0)

    def on_ok(self, b, S, e, x):
        """Cells filled when the expression is Ok or Some."""
        out = frozenset()
        for z in [("ok", e)] + x.ok_facts(e):
            if z[0] != "ok":
                continue
            z = z[1]
            while z[0] == "call@" and last(self.F.nice(z[2])) in PASS and len(z) > 3 and z[2] not in self.F.bodies:
                out = join(out, self.on_ok(b, S, z[3], x))
                z = z[3]
            if z[0] != "call@":
                continue
            t = b.blocks[z[1]]["t"]
            if t["k"] != "call":
                continue
            n = last(self.F.nice(t.get("f") or "?"))
            if n in ("get_or_try_init", "get", "get_mut") and z[2] not in self.F.bodies and t["a"]:
                k = self.cell_of(b, t["a"][0])
                if k:
                    out = join(out, frozenset([k]))
            elif self.targets(b, S, z[1]):
                out = join(out, self.of_targets(b, S, z[1], 1))
        return out

    # ------------------------------------------------------------ one body
    def flow(self, node):
        """State at the start of every block, and after its terminator."""
        b, S = self.F.bodies[node[0]], node[1]
        x = X.of(self.F, b)
        st = {0: self.entry[node]}
        work = [0]
        after = {}
        while work:
            bb = work.pop()
            t = b.blocks[bb]["t"]
            out = st[bb]
            if t["k"] == "call":
                out = join(out, self.on_call(b, S, bb, t))
            after[bb] = out
            for m in b.succ[bb]:
                o = out
                if t["k"] == "switch":
                    for f in x.edge_facts(bb, m):
                        if f[0] == "ok":
                            o = join(o, self.on_ok(b, S, f[1], x))
                n = o if m not in st else meet(st[m], o)
                if m not in st or n != st[m]:
                    st[m] = n
                    work.append(m)
        return st, after

    def summarise(self, node, st, after):
        """(cells filled on every return, cells filled when a usable value is returned)"""
        b, S = self.F.bodies[node[0]], node[1]
        x = X.of(self.F, b)
        al = TOP
        for bb in b.reach:
            if b.blocks[bb]["t"]["k"] == "return" and bb in st:
                al = meet(al, st[bb])
        kind = x.opt_kind(b.lty(0))
        if not kind:
            return al, al
        good = {"option": 1, "result": 0, "flow": 0}[kind]
        return al, join(al, self.good(b, S, x, 0, good, st, after, set()))

    def good(self, b, S, x, l, good, st, after, seen):
        if l in seen:
            return TOP
        seen.add(l)
        ds = b.defs.get(l, [])
        if not ds or l in x.mutref and l != 0:
            return frozenset()
        ok = TOP
        for bb, i, rv in ds:
            if bb not in st:
                continue
            s = st[bb]
            if rv["k"] == "agg":
                if rv.get("v") != good:
                    continue
            elif rv["k"] == "call":
                if last(self.F.nice(callee(rv) or "?")) == "from_residual":
                    continue
                s = join(after.get(bb, s), self.on_ok(b, S, x.call(rv, bb), x))
            elif rv["k"] == "use" and rv["o"]["k"] in ("copy", "move") and not rv["o"]["p"][1]:
                s = join(s, self.good(b, S, x, rv["o"]["p"][0], good, st, after, seen))
            elif rv["k"] == "use":
                e = x.op(rv["o"])
                if e[0] == "agg" and e[2] != good:
                    continue
                s = join(s, self.on_ok(b, S, e, x))
            ok = meet(ok, s)
        return ok

    # ------------------------------------------------------------ whole program
    def solve(self):
        F = self.F
        m, unk = callers(F, self.C)
        nodes = {n[:2] for n in self.G.nodes()}
        self.by = {}
        for n in nodes:
            self.by.setdefault(n[0], []).append(n)
        for k in F.bodies:
            if k not in self.by:
                n = (k, self.G.self_of(k))
                self.by[k] = [n]
                nodes.add(n)
        made = {}
        for k, b in F.bodies.items():
            for bb in b.reach:
                for s in b.blocks[bb]["s"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("ak") == "closure":
                        made.setdefault(s["r"]["d"], []).append((b, bb, s["p"][0]))
        inner = set()
        for k, b in F.bodies.items():
            fi = F.fns.get(k, {})
            if b.kind == "closure":
                if k in made:
                    inner.add(k)
            elif k in m and not (fi.get("export") or fi.get("sym") or k in unk or fi.get("trait_item") or fi.get("in_trait") or public(F, b)):
                inner.add(k)
        uses, feeds = {}, {}
        for k in inner:
            for cb in ([q[0] for q in made[k]] if F.bodies[k].kind == "closure" else [q[0] for q in m[k]]):
                feeds.setdefault(cb.id, set()).add(k)
        for n in nodes:
            b = F.bodies[n[0]]
            for bb, t in b.calls():
                for f, T in self.targets(b, n[1], bb):
                    uses.setdefault(f, set()).add(n)
        for n in nodes:
            self.entry[n] = TOP if n[0] in inner else frozenset()
            self.sum[n] = (TOP, TOP)
        flows = self.states
        dirty = set(nodes)
        for _ in range(2000):
            if not dirty:
                return
            nxt, stale = set(), set()
            for n in sorted(dirty, key=str):
                r = self.flow(n)
                if flows.get(n) != r:
                    flows[n] = r
                    stale |= feeds.get(n[0], set())
                s = self.summarise(n, *r)
                if s != self.sum[n]:
                    self.sum[n] = s
                    nxt |= uses.get(n[0], set())
                stale |= {c for c in feeds.get(n[0], ()) if F.bodies[c].kind == "closure"}
            for k in stale:
                for n in self.by[k]:
                    e = TOP
                    if F.bodies[k].kind == "closure":
                        for pb, bb, l in made[k]:
                            for pn in self.by[pb.id]:
                                if (pn[1] == n[1] or len(self.by[k]) == 1) and pn in flows and bb in flows[pn][0]:
                                    e = meet(e, join(flows[pn][0][bb], self.given(pn, l)))
                    else:
                        for cb, bb, t in m[k]:
                            for pn in self.by[cb.id]:
                                if pn in flows and bb in flows[pn][0]:
                                    e = meet(e, flows[pn][0][bb])
                    if e != self.entry[n]:
                        self.entry[n] = e
                        nxt.add(n)
            dirty = nxt
        raise RuntimeError("cells: no fixed point")

    def given(self, node, l):
        """Cells filled whenever the closure in local l runs, from the value whose content it is given."""
        b, S = self.F.bodies[node[0]], node[1]
        x = X.of(self.F, b)
        out = frozenset()
        for bb, t in b.calls():
            if last(self.F.nice(callee(t) or "?")) in COMB and len(t["a"]) > 1 and any(a["k"] in ("copy", "move") and a["p"][0] == l and not a["p"][1] for a in t["a"][1:2]):
                if x.opt_kind(b.op_ty(t["a"][0])):
                    out = join(out, self.on_ok(b, S, x.op(t["a"][0]), x))
        return out

    def filled(self, b, bb, key):
        """The cell is filled whenever the block starts, whatever type the function runs for."""
        for n in self.by[b.id]:
            st = self.states[n][0]
            if bb in st and not (st[bb] is TOP or key in st[bb]):
                return False
        return True


_c = {}


def get(F, C):
    if id(F) not in _c:
        _c[id(F)] = Cells(F, C)
    return _c[id(F)]
