"""Call graph whose nodes know the type a trait's default method runs for and which variants of an enumeration were
passed to them: (function, Self type, ((parameter, number), ...))."""
import cg
from expr import X
from ranges import Ranges


# access to what a smart pointer or guard holds runs no code of the content
QUIET = {"core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
         "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut", "core::mem::swap", "core::mem::replace", "core::mem::take"}


class Ctx:
    def __init__(self, F):
        self.F = F
        self.C = cg.get(F)
        self.memo = {}
        self.lives = {}
        self.local_traits = {t for t in F.traits if t.startswith("libopenraw")}
        # types that become trait objects of a local trait
        self.coerced = {}
        self.boxed = {}
        for k, b in F.bodies.items():
            for bb in b.reach:
                for s in b.blocks[bb]["s"]:
                    if s["k"] == "=" and s["r"]["k"] == "cast" and "Unsize" in s["r"]["c"]:
                        d = self.C.dyns_in(s["r"]["t"])
                        ot = b.op_ty(s["r"]["o"])
                        if d and ot is not None:
                            own = F.types[ot]["k"] == "adt"
                            for a in self.C.adts_in(ot):
                                for x in d:
                                    self.coerced.setdefault(x, set()).add(a)
                                    if own:
                                        self.boxed.setdefault(x, set()).add(a)

    def self_of(self, f):
        """Self type of a function inside an impl, when it is a local type."""
        fn = self.F.fns.get(f.split("::{closure")[0])
        if fn and fn.get("self") is not None:
            return self.F.adt_path(fn["self"])
        return None

    def impl_types(self, trait):
        out = []
        for im in self.F.impls:
            if im.get("trait") == trait and im.get("self") is not None:
                out.append(self.F.adt_path(im["self"]))
        return out

    def boxed_content(self, b, o, depth=0):
        """The operand refers to the content of a Box."""
        if b is None or depth > 8 or o["k"] not in ("copy", "move"):
            return False
        p = o["p"]
        for i in range(len(p[1]) + 1):
            ty = b.place_ty([p[0], p[1][:i]])
            k = self.F.types[ty] if ty is not None else None
            while k and k["k"] in ("ref", "ptr"):
                k = self.F.types[k["t"]]
            if k and k["k"] == "adt" and k["d"].endswith("boxed::Box"):
                return True
        d = b.defs.get(p[0], [])
        if len(d) == 1 and d[0][2]:
            r = d[0][2]
            if r["k"] in ("ref", "rawptr"):
                return self.boxed_content(b, {"k": "copy", "p": r["p"]}, depth + 1)
            if r["k"] in ("use", "cast"):
                return self.boxed_content(b, r["o"], depth + 1)
        return False

    def targets(self, t, S, b=None):
        """Nodes a call terminator can reach inside the crate, in a function running for Self type S."""
        F = self.F
        f, res = t.get("f"), t.get("res")
        if f is None:
            return set()
        out = set()
        tr = f.rsplit("::", 1)[0]
        if tr in self.local_traits:
            ta = t.get("ta") or []
            st = F.types[ta[0]] if ta and isinstance(ta[0], int) else None
            T = None
            while st is not None and st["k"] in ("ref", "ptr"):
                st = F.types[st["t"]]
            if st is not None and st["k"] == "adt" and (st["d"] in F.adts):
                T = st["d"]
                if T.endswith("boxed::Box") and st["a"]:
                    T = F.adt_path(st["a"][0])
            elif st is not None and st["k"] == "param" and st["s"] == "Self" and S:
                T = S
            impls = F.impl_of.get(f, ())
            if T is not None:
                its = [item for item, sid in impls if F.adt_path(sid) == T]
                if its:
                    for i in its:
                        out.add((i, T))
                    return out
                if f in F.bodies:
                    out.add((f, T))
                    return out
            if res and res != "virtual" and res != f and res in F.bodies:
                out.add((res, self.self_of(res)))
                return out
            for item, sid in impls:
                out.add((item, F.adt_path(sid)))
            if f in F.bodies:
                done = {s for _, s in out}
                for T2 in self.impl_types(tr):
                    if T2 not in done:
                        out.add((f, T2))
                if not self.impl_types(tr):
                    out.add((f, None))
            return out
        tg = self.C.targets_def(res, f, t.get("trait"))
        loc = [x for x in tg if x in F.bodies]
        ta = t.get("ta") or []
        k = self.F.types[ta[0]] if ta and isinstance(ta[0], int) else None
        if res == "virtual" and k and k["k"] == "dyn" and any(d in self.local_traits for d in k["d"]):
            own = t["a"] and self.boxed_content(b, t["a"][0])
            ads = set()
            for d in k["d"]:
                ads |= (self.boxed if own else self.coerced).get(d, set())
            loc = [x for x in loc if x == f or self.self_of(x) in ads]
        for x in loc:
            out.add((x, self.self_of(x)))
        if f in QUIET:
            return out
        if not loc or res in (None, "virtual"):
            ads = set()
            for a in t.get("ta") or ():
                if isinstance(a, int):
                    ads |= self.C.adts_in(a)
                    k = self.F.types[a]
                    own = k["k"] == "adt" and k["d"].endswith("boxed::Box") or k["k"] == "dyn" and t["a"] and self.boxed_content(b, t["a"][0])
                    for d in self.C.dyns_in(a):
                        if d in self.local_traits:
                            ads |= (self.boxed if own else self.coerced).get(d, set())
            for d in ads:
                for trn, m in self.C.methods_of_adt.get(d, []):
                    if self.may_use(f, trn):
                        out.add((m, d))
        return out

    def may_use(self, f, trait):
        """Code outside the crate is taken not to format, compare or hash what it is given unless that is what it is for."""
        q = trait.split("::")[-1]
        if q in ("Debug", "Display"):
            return "fmt" in f or "panick" in f or "unwrap" in f or "expect" in f or "to_string" in f
        return True

    def values(self, b, S, bb):
        """Functions and closures used as values in a block (they may run whenever the block runs)."""
        out = set()
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=":
                r = s["r"]
                if r["k"] == "agg" and r.get("ak") == "closure":
                    out.add((r["d"], S))
                for o in [r[x] for x in ("o", "a", "b") if isinstance(r.get(x), dict)] + (list(r["ops"]) if r["k"] == "agg" else []):
                    out |= self.value(o)
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            for o in t["a"]:
                out |= self.value(o)
        return out

    def value(self, o):
        if o.get("k") == "const":
            return self.type_values(o["t"])
        return set()

    def type_values(self, ty, S=None):
        t = self.F.types[ty]
        out = set()
        if t["k"] == "fndef":
            for x in self.C.targets_def(t.get("res"), t["d"], None):
                if x in self.F.bodies:
                    out.add((x, self.self_of(x)))
        elif t["k"] == "closure":
            out.add((t["d"], S))
        return out

    def consts(self, b, t, K):
        """Numbers of the enumeration variants a call passes on."""
        out = []
        x = X.of(self.F, b)
        for i, a in enumerate(t.get("a") or ()):
            ty = b.op_ty(a)
            k = self.F.types[ty] if ty is not None else None
            if not k or k["k"] != "adt" or k["d"] not in self.F.adts or self.F.adts[k["d"]]["kind"] != "enum":
                continue
            vs = self.F.adts[k["d"]]["v"]
            if any(v["f"] for v in vs):
                continue
            e = x.op(a)
            if e[0] == "agg" and isinstance(e[2], int):
                out.append((i + 1, int(vs[e[2]]["discr"])))
            elif e[0] == "p":
                for p, n in K:
                    if p == e[1]:
                        out.append((i + 1, n))
        return tuple(out)

    def live(self, node):
        """Blocks of the function that run for the variants passed to it."""
        if node in self.lives:
            return self.lives[node]
        b = self.F.bodies[node[0]]
        bbs = list(b.reach)
        for p, n in node[2]:
            r = Ranges(self.F, b, ("discr", ("p", p), b.lty(p)), ((n, n),))
            bbs = [x for x in bbs if r.get(x)]
        self.lives[node] = bbs
        return bbs

    def calls(self, node):
        """Call terminators of the node, with their block."""
        b = self.F.bodies[node[0]]
        for bb in self.live(node):
            t = b.blocks[bb]["t"]
            if t["k"] == "call":
                yield bb, t

    def callees(self, node, t):
        """Targets of a call made by node, told which variants they are passed."""
        b = self.F.bodies[node[0]]
        K = self.consts(b, t, node[2])
        return {(f, S, K if f in self.F.bodies and self.F.bodies[f].argc == len(t["a"]) else ()) for f, S in self.targets(t, node[1], b)}

    def succ(self, node):
        """{node: line}"""
        if node in self.memo:
            return self.memo[node]
        k, S, K = node
        b = self.F.bodies.get(k)
        out = {}
        if b is not None:
            for bb in self.live(node):
                for n in self.values(b, S, bb):
                    out.setdefault(n + ((),), b.line)
                t = b.blocks[bb]["t"]
                if t["k"] == "call":
                    for n in self.callees(node, t):
                        out.setdefault(n, t["l"])
                elif t["k"] == "drop" and t.get("ty") is not None:
                    for d in self.C.adts_in(t["ty"]):
                        if d in self.C.drop_of_adt:
                            out.setdefault((self.C.drop_of_adt[d], d, ()), t["l"])
        self.memo[node] = out
        return out

    def reach(self, roots):
        seen = {}
        st = [(r, None, None) for r in roots]
        while st:
            n, p, l = st.pop()
            if n in seen or n[0] not in self.F.bodies:
                continue
            seen[n] = (p, l)
            for m, line in self.succ(n).items():
                if m not in seen:
                    st.append((m, n, line))
        return seen

    def nodes(self):
        """Every node that can run: entry points with the types they run for."""
        F = self.F
        out = []
        for r in cg.roots(F, self.C):
            fn = F.fns.get(r, {})
            if fn.get("in_trait"):
                ts = self.impl_types(r.rsplit("::", 1)[0])
                for T in ts or [None]:
                    out.append((r, T, ()))
            else:
                out.append((r, self.self_of(r), ()))
        return self.reach(out)

    def path(self, seen, n):
        out = []
        while n is not None:
            out.append(self.F.bodies[n[0]].nice)
            n = seen[n][0]
        return " <- ".join(out)


_x = {}


def get(F):
    if id(F) not in _x:
        _x[id(F)] = Ctx(F)
    return _x[id(F)]
