"""A value that is only complete once a loading method succeeded is not used before.

Such a value is followed from where it is built: through moves, wrapping in Ok/Some and the combinators of Option and Result,
into the functions and closures it is passed to and out of those that return it, until each use is one that comes after the
loading call was seen to succeed.
"""
import cg, ctx, mods
from expr import X, last
from term import callee
from inter import callers, public

OPEN = {"map", "and_then", "is_ok_and", "is_some_and", "map_or", "map_or_else", "inspect", "then", "get_or_try_init", "get_or_init"}
SAME = {"ok", "ok_or", "ok_or_else", "map_err", "context", "with_context", "branch", "inspect_err", "or_else", "from_output", "filter", "into", "from", "new", "unwrap", "expect"}
BOXES = ("alloc::boxed::Box", "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "std::", "alloc::rc::Rc")


class Late:
    def __init__(self, F, adt, fld, cons, loaders, V):
        self.F, self.adt, self.fld = F, adt, fld
        self.C, self.G = cg.get(F), ctx.get(F)
        self.V = V
        self.loaders = set(loaders)
        self.cons = {b.id for b, _ in cons}
        self.bad = []      # (body, block, what)
        self.count = 0
        self.seen = set()
        self.direct = {k for k, b in F.bodies.items() if self.touches(b)}
        self.readers = self.reaching(self.direct)

    # ------------------------------------------------------------ who reads the field
    def touches(self, b):
        for bb in b.reach:
            blk = b.blocks[bb]
            for s in blk["s"]:
                if s["k"] == "=" and self.is_field(b, s["r"].get("p")):
                    return True
                if s["k"] == "=" and s["r"]["k"] == "use" and self.is_field(b, s["r"]["o"].get("p")):
                    return True
        return False

    def is_field(self, b, p):
        if not p:
            return False
        fs, _ = mods.path_fields(self.F, b, p)
        return bool(fs) and (self.adt, self.fld) in fs

    def reaching(self, ks):
        rev = {}
        for n in self.G.nodes():
            b = self.F.bodies[n[0]]
            for bb, t in b.calls():
                for g, _ in self.G.targets(t, n[1], b):
                    rev.setdefault(g, set()).add(n[0])
            for q in self.C.out(b.id) if hasattr(self.C, "out") else ():
                rev.setdefault(q, set()).add(n[0])
        out, st = set(ks), list(ks)
        while st:
            k = st.pop()
            for c in rev.get(k, ()):
                if c not in out:
                    out.add(c)
                    st.append(c)
        return out

    def holds(self, t, n=0):
        """The type is, wraps or refers to the late type."""
        if t is None or n > 5:
            return False
        k = self.F.types[t]
        if k["k"] == "adt":
            return k["d"] == self.adt or (k["d"].startswith(("core::", "alloc::", "std::")) and any(self.holds(a, n + 1) for a in k["a"]))
        if k["k"] in ("ref", "ptr"):
            return self.holds(k["t"], n + 1)
        if k["k"] == "tuple":
            return any(self.holds(a, n + 1) for a in k["a"])
        return False

    # ------------------------------------------------------------ loading
    def loaded(self, b, bb, al):
        x = X.of(self.F, b)
        for f in x.facts(bb):
            if f[0] == "ok" and self.load_call(b, x, f[1], al):
                return True
        return False

    def load_call(self, b, x, e, al, n=0):
        if n > 6:
            return False
        for z in [("ok", e)] + x.ok_facts(e):
            if z[0] != "ok":
                continue
            z = z[1]
            if z[0] == "call@":
                t = b.blocks[z[1]]["t"]
                if t["k"] != "call":
                    continue
                f = callee(t)
                if f in self.loaders and t["a"] and self.root(b, t["a"][0]) in al:
                    return True
                if (self.same(f) if f in self.F.bodies else last(self.F.nice(f or "?")) in SAME) and t["a"] and self.load_call(b, x, x.op(t["a"][0]), al, n + 1):
                    return True
        return False

    def same(self, f):
        """The function only returns a usable value when its first parameter is one."""
        b = self.F.bodies[f]
        x = X.of(self.F, b)
        kind = x.opt_kind(b.lty(0))
        if not kind or not b.argc or not x.opt_kind(b.lty(1)):
            return False
        good = {"option": 1, "result": 0, "flow": 0}[kind]
        for bb, i, rv in b.defs.get(0, []):
            if rv["k"] == "agg" and rv.get("v") != good or rv["k"] == "call" and last(self.F.nice(callee(rv) or "?")) == "from_residual":
                continue
            if rv["k"] == "use" and self.root(b, rv["o"]) == 1:
                continue
            if ("ok", ("p", 1)) in x.facts(bb):
                continue
            if rv["k"] == "call" and last(self.F.nice(callee(rv) or "?")) in SAME and callee(rv) not in self.F.bodies and self.root(b, rv["a"][0]) == 1:
                continue
            return False
        return bool(b.defs.get(0))

    def root(self, b, o, n=0):
        if not o or o["k"] not in ("copy", "move") or n > 8:
            return None
        l = o["p"][0]
        d = b.defs.get(l, [])
        if len(d) == 1 and not [e for e in o["p"][1] if e != "*"]:
            r = d[0][2]
            if r["k"] in ("ref", "rawptr"):
                return self.root(b, {"k": "copy", "p": r["p"]}, n + 1)
            if r["k"] == "use":
                z = self.root(b, r["o"], n + 1)
                return l if z is None else z
            if r["k"] == "call" and last(self.F.nice(callee(r) or "?")) in ("deref", "deref_mut", "as_ref", "as_mut") and r["a"]:
                return self.root(b, r["a"][0], n + 1)
        return l

    # ------------------------------------------------------------ following a value
    def value(self, b, l):
        """Every use of the value in local l of b."""
        if (b.id, l) in self.seen:
            return
        self.seen.add((b.id, l))
        x = X.of(self.F, b)
        al, work = {l}, [l]
        refs = set()
        while work:
            v = work.pop()
            for bb in sorted(b.reach):
                for i, s in enumerate(b.blocks[bb]["s"]):
                    if s["k"] != "=":
                        continue
                    r, d = s["r"], s["p"]
                    if r["k"] == "use" and r["o"]["k"] in ("copy", "move") and r["o"]["p"][0] == v and self.holds(b.op_ty(r["o"])):
                        self.put(b, bb, d, al, work, v in refs, refs)
                    elif r["k"] in ("ref", "rawptr") and r["p"][0] == v and self.holds(b.place_ty(r["p"])):
                        self.put(b, bb, d, al, work, True, refs)
                    elif r["k"] in ("ref", "rawptr", "use") and (r.get("p") or r.get("o", {}).get("p") or [None])[0] == v:
                        p = r.get("p") or r["o"]["p"]
                        if self.is_field(b, p):
                            self.use(b, bb, al, "reads it")
                    elif r["k"] == "agg" and any(o["k"] in ("copy", "move") and o["p"][0] == v and self.holds(b.op_ty(o)) for o in r["ops"]):
                        if r.get("ak") == "closure":
                            self.closure(b, bb, r, d, al, v)
                        elif r.get("ak") == "tuple" or (r.get("d") or "").startswith(("core::", "alloc::", "std::")):
                            self.put(b, bb, d, al, work, v in refs, refs)
                        else:
                            self.use(b, bb, al, "keeps it")
                    elif r["k"] == "cast" and r["o"]["k"] in ("copy", "move") and r["o"]["p"][0] == v and self.holds(b.op_ty(r["o"])):
                        self.use(b, bb, al, "hands it on")
                t = b.blocks[bb]["t"]
                if t["k"] == "call":
                    for i, a in enumerate(t["a"]):
                        if a["k"] in ("copy", "move") and a["p"][0] == v and self.holds(b.op_ty(a)):
                            self.passed(b, bb, t, i, al, work, refs)
        return al

    def put(self, b, bb, d, al, work, ref, refs):
        if d[1]:
            self.use(b, bb, al, "stores it")
        elif d[0] == 0:
            self.returned(b, bb, al)
        else:
            if ref:
                refs.add(d[0])
            if d[0] not in al:
                al.add(d[0])
                work.append(d[0])

    def use(self, b, bb, al, what):
        self.count += 1
        if not self.loaded(b, bb, al):
            self.bad.append((b, bb, what))

    def returned(self, b, bb, al):
        self.count += 1
        if self.loaded(b, bb, al):
            return
        self.producer(b, bb)

    def producer(self, b, bb):
        """The function hands out the value incomplete: follow it where it is received."""
        F = self.F
        if b.id in self.seen:
            return
        self.seen.add(b.id)
        if b.kind == "closure":
            ms = self.V.made(b.id)
            for pb, pbb, agg in ms:
                l = [s["p"][0] for s in pb.blocks[pbb]["s"] if s["k"] == "=" and s["r"] is agg]
                cs = [(cb, t) for cb, t in pb.calls() if any(a["k"] in ("copy", "move") and a["p"][0] in l and not a["p"][1] for a in t["a"])]
                if not cs:
                    self.bad.append((pb, pbb, "passes on a closure that returns it"))
                for cb, t in cs:
                    n = last(F.nice(callee(t) or "?"))
                    if n in ("get_or_init", "get_or_try_init") or not self.holds(pb.place_ty(t["d"])):
                        self.bad.append((pb, cb, "keeps it"))
                    else:
                        self.follow(pb, cb, t)
            if not ms:
                self.bad.append((b, bb, "returns it"))
            return
        fi = F.fns.get(b.id, {})
        m, unk = callers(F, self.C)
        if b.id not in self.cons and (fi.get("export") or fi.get("sym") or b.id in unk or fi.get("trait_item") or fi.get("in_trait") or public(F, b)):
            self.bad.append((b, bb, "returns it"))
            return
        for cb, cbb, t in m.get(b.id, ()):
            self.follow(cb, cbb, t)

    def follow(self, b, bb, t):
        d = t["d"]
        if d[1]:
            self.use(b, bb, set(), "stores it")
        elif d[0] == 0:
            self.producer(b, bb)
        else:
            self.value(b, d[0])

    def closure(self, b, bb, agg, d, al, v):
        """Captured by a closure: fine when it only runs, or is only made, after loading succeeded."""
        self.count += 1
        if self.loaded(b, bb, al):
            return
        x = X.of(self.F, b)
        cb = self.F.bodies.get(agg["d"])
        if cb is not None and not any(self.uses_late(cb)):
            return
        l = d[0]
        for ubb, t in b.calls():
            if len(t["a"]) > 1 and any(a["k"] in ("copy", "move") and a["p"][0] == l and not a["p"][1] for a in t["a"][1:]):
                n = last(self.F.nice(callee(t) or "?"))
                if n in OPEN and self.load_call(b, x, x.op(t["a"][0]), al):
                    return
        self.bad.append((b, bb, "is used in a closure"))

    def uses_late(self, cb):
        yield cb.id in self.readers or any(self.holds(t) for t in [cb.lty(0)])

    def passed(self, b, bb, t, i, al, work, refs):
        F = self.F
        f = callee(t)
        n = last(F.nice(f or "?"))
        byref = F.types[b.op_ty(t["a"][i])]["k"] in ("ref", "ptr")
        if f in F.bodies:
            if f in self.loaders and i == 0:
                return
            if f not in self.readers and byref:
                self.count += 1
                return
            self.count += 1
            if self.loaded(b, bb, al):
                return
            if byref:
                self.bad.append((b, bb, "is used by %s" % F.nice(f)))
            else:
                self.value(F.bodies[f], i + 1)
            return
        self.count += 1
        if self.loaded(b, bb, al):
            return
        if n in OPEN or n in SAME or f is None:
            for a in t["a"][1:]:
                cl = self.closure_of(b, a)
                if cl is not None and n not in ("or_else", "map_err", "ok_or_else", "with_context", "inspect_err"):
                    for j in range(2, cl.argc + 1):
                        if self.holds(cl.lty(j)):
                            self.value(cl, j)
            if n in OPEN:
                return  # what the closure returns is followed from there
            if t["d"][1]:
                self.bad.append((b, bb, "stores it"))
            elif t["d"][0] == 0:
                self.returned(b, bb, al)
            elif t["d"][0] not in al and self.holds(b.lty(t["d"][0])):
                al.add(t["d"][0])
                work.append(t["d"][0])
            return
        if n in ("drop", "drop_in_place", "deref", "deref_mut", "as_ref", "as_mut"):
            if n in ("deref", "deref_mut", "as_ref", "as_mut") and t["d"][0] not in al and not t["d"][1]:
                al.add(t["d"][0])
                work.append(t["d"][0])
            return
        self.bad.append((b, bb, "is passed to %s" % n))

    def closure_of(self, b, a):
        if a["k"] not in ("copy", "move"):
            k = self.F.types[a["t"]] if a["k"] == "const" and a.get("t") is not None else None
            return self.F.bodies.get(k["d"]) if k and k["k"] in ("closure", "fndef") else None
        k = self.F.types[b.op_ty(a)]
        return self.F.bodies.get(k["d"]) if k["k"] == "closure" else None

    # ------------------------------------------------------------ the loading methods themselves
    def before_store(self, P):
        """In a loading method, nothing that reads the field runs before it is stored."""
        for k in sorted(self.loaders):
            b = self.F.bodies[k]
            rs = set(P.replaces(b, (self.adt, self.fld)))
            seen, st = {0}, [0]
            while st:
                n = st.pop()
                self.count += 1
                if n in rs:
                    continue
                t = b.blocks[n]["t"]
                if t["k"] == "call":
                    f = callee(t)
                    if f in self.readers and f not in self.loaders and any(self.root(b, a) == 1 for a in t["a"]):
                        self.bad.append((b, n, "reads it in %s before it is set" % self.F.nice(f)))
                for m in b.succ[n]:
                    if m not in seen:
                        seen.add(m)
                        st.append(m)

    def run(self, P):
        for k in sorted(self.cons):
            self.producer(self.F.bodies[k], 0)
        self.before_store(P)
        return self
