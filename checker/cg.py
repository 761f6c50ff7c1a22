"""Call graph over the crate: direct, trait-object, generic, function-value and drop edges (over-approximated)."""


class CG:
    def __init__(self, F):
        self.F = F
        self.succ = {}     # body id -> {callee body id: (line, how)}
        self.ext = {}      # body id -> [(external callee path, call terminator, line)]
        self.methods_of_adt = {}   # local ADT -> methods of external-trait impls
        self.drop_of_adt = {}
        local_traits = {t for t in F.traits if t.startswith("libopenraw")}
        for im in F.impls:
            sa = F.adt_path(im["self"]) if im.get("self") is not None else None
            for n, item, titem in im["items"]:
                if im.get("trait") and im["trait"].endswith("ops::drop::Drop"):
                    self.drop_of_adt[sa] = item
                if sa and im.get("trait") and im["trait"] not in local_traits:
                    self.methods_of_adt.setdefault(sa, []).append((im["trait"], item))
        for k, b in F.bodies.items():
            self.scan(k, b)
        self._rev = None

    def add(self, a, b, line, how):
        if b in self.F.bodies and b != a:
            self.succ.setdefault(a, {}).setdefault(b, (line, how))
        elif b == a:
            self.succ.setdefault(a, {}).setdefault(b, (line, how))

    def fn_value(self, k, tyid, line):
        t = self.F.types[tyid]
        if t["k"] == "fndef":
            for c in self.targets_def(t.get("res"), t["d"], None):
                self.add(k, c, line, "value")
        elif t["k"] == "closure":
            self.add(k, t["d"], line, "closure")

    def targets_def(self, res, f, trait):
        F = self.F
        if res and res != "virtual":
            return [res]
        out = []
        if f in F.impl_of:
            out = [item for item, _ in F.impl_of[f]]
        if f in F.bodies:
            out.append(f)  # a default body
        return out

    def adts_in(self, tyid, seen=None):
        seen = set() if seen is None else seen
        if tyid in seen:
            return set()
        seen.add(tyid)
        F = self.F
        t = F.types[tyid]
        out = set()
        k = t["k"]
        if k == "adt":
            if t["d"] in F.adts and F.adts[t["d"]].get("local"):
                out.add(t["d"])
            for a in t["a"]:
                out |= self.adts_in(a, seen)
        elif k in ("ref", "ptr", "slice", "array"):
            out |= self.adts_in(t["t"], seen)
        elif k == "tuple":
            for a in t["a"]:
                out |= self.adts_in(a, seen)
        return out

    def dyns_in(self, tyid, seen=None):
        seen = set() if seen is None else seen
        if tyid in seen:
            return set()
        seen.add(tyid)
        t = self.F.types[tyid]
        k = t["k"]
        out = set()
        if k == "dyn":
            out |= set(t["d"]) if k == "dyn" else {t["d"]}
        elif k == "adt":
            for a in t["a"]:
                out |= self.dyns_in(a, seen)
        elif k in ("ref", "ptr", "slice", "array"):
            out |= self.dyns_in(t["t"], seen)
        return out

    def scan(self, k, b):
        F = self.F
        for bb in b.reach:
            blk = b.blocks[bb]
            for s in blk["s"]:
                if s["k"] != "=":
                    continue
                r = s["r"]
                self.ops_in(k, b, r, s["l"])
                if r["k"] == "agg" and r.get("ak") == "closure":
                    self.add(k, r["d"], s["l"], "closure")
            t = blk["t"]
            if t["k"] == "call":
                for o in t["a"]:
                    self.op(k, b, o, t["l"])
                f = t.get("f")
                if f is None:
                    continue
                res = t.get("res")
                tg = self.targets_def(res, f, t.get("trait"))
                loc = [x for x in tg if x in F.bodies]
                for x in loc:
                    self.add(k, x, t["l"], "virtual" if res == "virtual" else "call")
                if not loc or res in (None, "virtual"):
                    name = f if (not res or res == "virtual") else res
                    self.ext.setdefault(k, []).append((name, t, t["l"]))
                    # generic code outside the crate can call back into trait impls of the types it is given
                    ads = set()
                    for a in (t.get("ta") or []):
                        if isinstance(a, int):
                            ads |= self.adts_in(a)
                    for d in ads:
                        for tr, m in self.methods_of_adt.get(d, []):
                            self.add(k, m, t["l"], "callback")
                elif not loc and res:
                    self.ext.setdefault(k, []).append((res, t, t["l"]))
            elif t["k"] == "drop":
                for d in self.adts_in(t["ty"]) if t.get("ty") is not None else ():
                    if d in self.drop_of_adt:
                        self.add(k, self.drop_of_adt[d], t["l"], "drop")
            elif t["k"] == "switch":
                pass

    def op(self, k, b, o, line):
        if o["k"] == "const":
            self.fn_value(k, o["t"], line)
            if "promoted" in o and o.get("def"):
                pass

    def ops_in(self, k, b, r, line):
        kk = r["k"]
        if kk in ("use", "repeat"):
            self.op(k, b, r["o"], line)
        elif kk == "cast":
            self.op(k, b, r["o"], line)
        elif kk == "agg":
            for o in r["ops"]:
                self.op(k, b, o, line)
        elif kk == "bin":
            self.op(k, b, r["a"], line)
            self.op(k, b, r["b"], line)

    def reach(self, roots, skip=()):
        """body -> (parent, line) for everything reachable."""
        seen = {}
        st = [(r, None, None) for r in roots]
        while st:
            x, p, l = st.pop()
            if x in seen or x in skip or x not in self.F.bodies:
                continue
            seen[x] = (p, l)
            for y, (line, how) in self.succ.get(x, {}).items():
                if y not in seen:
                    st.append((y, x, line))
        return seen

    def path(self, seen, x):
        out = []
        while x is not None:
            out.append(self.F.bodies[x].nice)
            x = seen[x][0]
        return " <- ".join(out)

    def sccs(self, nodes=None):
        """Tarjan; returns components with a cycle."""
        nodes = list(nodes or self.F.bodies)
        ns = set(nodes)
        idx, low, on, st, out = {}, {}, set(), [], []
        n = [0]
        for root in nodes:
            if root in idx:
                continue
            work = [(root, iter([y for y in self.succ.get(root, {}) if y in ns]))]
            idx[root] = low[root] = n[0]; n[0] += 1
            st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1
                        st.append(w); on.add(w)
                        work.append((w, iter([y for y in self.succ.get(w, {}) if y in ns])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in self.succ.get(v, {}):
                        out.append(c)
        return out


def roots(F, C=None):
    """Every entry a user or the C side can reach: public functions, exports, trait implementations."""
    out = []
    for k, f in F.fns.items():
        if k not in F.bodies or "root" in f:
            continue
        if f.get("reach") or f.get("sym") or f.get("trait") or f.get("trait_item"):
            out.append(k)
    # initialisers of statics
    for k, b in F.bodies.items():
        if b.kind in ("const",):
            out.append(k)
    return out


_c = {}


def get(F):
    if id(F) not in _c:
        _c[id(F)] = CG(F)
    return _c[id(F)]
