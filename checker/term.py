"""Termination of loops: quantities that only move one way, the places where they move, and the tests that stop them.

A cycle of the control flow graph is dealt with when no execution can stay in it for ever.  The edges on which a quantity
moves towards its limit, or on which a test bounds it, can only be taken finitely often as long as nothing in the cycle
moves it back; they are removed and what is left is examined again.
"""
import expr, mir
from expr import X, last, has_bad, collect
from bounds import B, RESIZE, SHRINK

CONSUME = {"read_u8", "read_i8", "read_u16", "read_i16", "read_u24", "read_i24", "read_u32", "read_i32", "read_u48", "read_u64", "read_i64", "read_u128", "read_f32", "read_f64", "read_uint", "read_int"}
BITS = {"read_u8", "read_u16", "read_u32", "read_u64", "read_i8", "read_i16", "read_i32", "read_i64", "skip"}
REWIND = {"seek", "rewind", "seek_relative", "set_position", "seek_from_current", "get_mut", "take", "replace", "swap", "into_inner", "clone_from"}
GROW = {"push", "push_back", "push_front", "insert", "try_push"}
GROWMORE = {"extend", "extend_from_slice", "append", "resize", "reserve", "resize_with", "reserve_exact"}
POP = {"pop", "pop_front", "pop_back", "pop_first", "pop_last"}
INFINITE = {"RangeFrom", "Repeat", "RepeatWith", "Cycle", "FromFn", "Successors"}
LIMIT = {"Take": 0, "TakeWhile": None}
ITER = "core::iter::traits::iterator::Iterator::"
ITERS = (ITER, "core::iter::traits::double_ended::DoubleEndedIterator::")
PULL = {"next", "next_back", "nth"}


class XL(X):
    """Expressions as seen from inside a set of blocks: what was computed outside is opaque and does not change."""

    def __init__(self, F, b, blocks):
        X.__init__(self, F, b)
        self.blocks = blocks

    def local(self, l):
        if l in self.memo:
            return self.memo[l]
        d = self.b.defs.get(l)
        if l > self.b.argc and d and len(d) == 1 and d[0][0] not in self.blocks:
            k = self.F.types[self.b.lty(l)]["k"]
            if k in ("int", "bool", "char", "float"):
                e = X.local(self, l)
                if e[0] != "c":
                    e = self.memo[l] = ("l", l)
                return e
        return X.local(self, l)


class BT(B):
    """Bounds with what positive products and successful reads tell."""

    def __init__(self, F, x, facts):
        facts = list(facts)
        for f in list(facts):
            if len(f) == 3 and f[0] in expr.NEG:
                op, a, c = f
                if op == "Lt":
                    self.positive(x, c, facts)
                elif op == "Gt":
                    self.positive(x, a, facts)
                elif op == "Ne" and c == ("c", 0):
                    self.positive(x, a, facts)
                elif op == "Ge" and c[0] == "c" and isinstance(c[1], int) and c[1] > 0:
                    self.positive(x, a, facts)
        B.__init__(self, F, x, facts)

    def positive(self, x, e, out, n=0):
        """e > 0 for unsigned quantities: what follows for its parts."""
        if n > 6:
            return
        if e[0] == "bin" and e[1] == "Mul" or e[0] == "call" and e[1] == "min" and len(e) == 4:
            self.positive(x, e[2], out, n + 1)
            self.positive(x, e[3], out, n + 1)
        elif e[0] == "cast":
            self.positive(x, e[2], out, n + 1)
        elif e[0] == "bin" and e[1] in ("Div", "Shr"):
            self.positive(x, e[2], out, n + 1)
        elif e[0] == "l":
            d = x.b.defs.get(e[1])
            if d and len(d) == 1:
                i = X.of(x.F, x.b).rv(d[0][2], d[0][0], e[1])
                if i != e:
                    self.positive(x, i, out, n + 1)
        if e[0] != "c":
            out.append(("Ge", e, ("c", 1)))

    def _lb(self, e, depth):
        if e[0] == "call@" and last(self.F.nice(e[2])) == "position" and len(e) > 3:
            for f in self.facts:
                if f[0] == "ok" and f[1][0] == "call@" and last(self.F.nice(f[1][2])) in CONSUME and len(f[1]) > 3 and f[1][3] == e[3]:
                    return 1
        return B._lb(self, e, depth)


def callee(t):
    return t.get("res") if t.get("res") not in (None, "virtual") else t.get("f")


def related(a, b):
    return expr.has_prefix(a, b) or expr.has_prefix(b, a)


def root(e):
    while e[0] in ("f", "down", "some", "idx", "proj") and isinstance(e[1], tuple):
        e = e[1]
    return e


class Eff:
    """What a function, or a part of it, does to a quantity."""

    def __init__(self):
        self.up = {}  # edge -> strictly more
        self.down = {}
        self.shrink = {}  # moves towards zero unless it is zero
        self.moves = set()  # directions seen: "up", "down"
        self.kill = None
        self.test_hi = {}  # edge -> bound
        self.test_lo = {}
        self.calls = []


class Term:
    def __init__(self, F, G=None):
        self.F = F
        self.G = G
        self.sums = {}
        self.why = {}
        self.finite = {}
        self.reviewed = ()

    # ------------------------------------------------------------ functions reached by a call
    def targets(self, b, t):
        f = t.get("f")
        if f is None:
            return None
        r = callee(t)
        if r in self.F.bodies and t.get("res") not in (None, "virtual"):
            return [r]
        if f.split("::")[0] == "libopenraw" or f in self.F.impl_of and any(i in self.F.bodies for i, _ in self.F.impl_of[f]):
            its = [i for i, _ in self.F.impl_of.get(f, ()) if i in self.F.bodies]
            if f in self.F.bodies:
                its.append(f)
            if f.split("::")[0] == "libopenraw":
                return its
            # a trait from elsewhere called on a generic type: local implementations are among the possibilities
            return its
        return [r] if r in self.F.bodies else []

    # ------------------------------------------------------------ effects on a quantity
    def effects(self, b, x, xo, v, blocks, edges):
        """x sees from inside `blocks`; v is the quantity."""
        F = self.F
        E = Eff()
        seq = v[1] if v[0] == "len" else None
        rd = v[1] if v[0] in ("rd", "it") else None
        for bb in sorted(blocks):
            blk = b.blocks[bb]
            out = [e for e in edges if e[0] == bb]
            if rd is None:
                for s in blk["s"]:
                    if s["k"] != "=":
                        continue
                    p = s["p"]
                    e = x.place(p) if p[1] else ("l", p[0])
                    tgt = seq if seq is not None else v
                    if e == tgt and (p[1] or x.local(p[0]) == e):
                        self.assign(E, b, x, xo, v, x.rv(s["r"], bb, p[0]), bb, out)
                    elif e != tgt and expr.has_prefix(tgt, e) and e[0] != "p" and (p[1] or x.local(p[0]) == e):
                        E.kill = "%s is replaced" % (show(F, b, e),)
            t = blk["t"]
            if t["k"] == "call":
                self.call(E, b, x, xo, v, bb, t, out)
            if E.kill:
                return E
        for e in edges:
            if e[0] not in blocks:
                continue
            fs = x.edge_facts(*e)
            for f in fs:
                if len(f) == 3 and f[0] in expr.NEG:
                    self.test(E, x, v, f, e)
        return E

    def test(self, E, x, v, f, edge):
        if v[0] in ("rd", "it"):
            return
        op, a, c = f
        for op, a, c in ((op, a, c), (expr.FLIP[op], c, a)):
            k = coef(BT(self.F, x, []), a, v)
            if not k or mentions(c, v):
                continue
            if k < 0:
                op = expr.FLIP[op]
            if op in ("Lt", "Le", "Eq"):
                E.test_hi.setdefault(edge, []).append((a, c))
            if op in ("Gt", "Ge", "Eq"):
                E.test_lo.setdefault(edge, []).append((a, c))
            if op == "Ne" and c == ("c", 0):
                E.test_lo.setdefault(edge, []).append((a, c))
            elif op == "Ne":
                E.test_hi.setdefault(edge, []).append((a, c, "ne"))
                E.test_lo.setdefault(edge, []).append((a, c, "ne"))

    def assign(self, E, b, x, xo, v, r, bb, out, n=0):
        F = self.F
        if v[0] == "len":
            r = x.length(r) if r[0] != "l" or len(b.defs.get(r[1], ())) < 2 or r == v[1] else r
        if r[0] == "ovf":
            r = r[1]
        if r == v:
            return
        if r[0] == "l" and n < 4 and r[1] > b.argc and len(b.defs.get(r[1], [])) > 1 and r[1] not in x.mutref and not (v[0] == "l" and v[1] == r[1]):
            for dbb, i, rv in b.defs[r[1]]:
                if dbb not in x.blocks:
                    E.kill = "set to a value from outside the loop"
                    return
                self.assign(E, b, x, xo, v, x.rv(rv, dbb, r[1]), dbb, [e for e in self.edges_of(b, dbb)], n + 1)
            return
        if r[0] == "call" and r[1] == "max" and v in r[2:4]:
            E.moves.add("up")
            return
        if r[0] == "call" and r[1] == "min" and v in r[2:4]:
            E.moves.add("down")
            return
        if r[0] == "bin" and r[1] in ("Shr", "Div") and r[2] == v:
            k = r[3][1] if r[3][0] == "c" and isinstance(r[3][1], int) else 0
            E.moves.add("down")
            if k >= (1 if r[1] == "Shr" else 2):
                for e in out:
                    E.shrink[e] = 1
            return
        if r[0] == "call" and r[1] == "saturating_sub" and r[2] == v:
            E.moves.add("down")
            if BT(F, xo, xo.facts(bb)).lb(r[3]) >= 1:
                for e in out:
                    E.shrink[e] = 1
            return
        if r[0] == "bin" and r[1] in ("Rem", "BitAnd") and r[2] == v:
            E.moves.add("down")
            return
        bt = BT(F, xo, xo.facts(bb))
        g, c = bt.lin(r)
        if v[0] == "len":
            g = {(v if k == v else k): q for k, q in g.items()}
        if g.get(v) != 1:
            E.kill = "%s is set to %s" % (show(F, b, v), show(F, b, r))
            return
        g = {k: q for k, q in g.items() if k != v}
        g = self.expand(xo, b, g)
        if bt.nonneg(g, c - 1):
            E.moves.add("up")
            for e in out:
                E.up[e] = 1 if not g and c == 1 else 2
        elif bt.nonneg(g, c):
            E.moves.add("up")
        else:
            ng = {k: -q for k, q in g.items()}
            if bt.nonneg(ng, -c - 1):
                E.moves.add("down")
                for e in out:
                    E.down[e] = 1 if not g and c == -1 else 2
            elif bt.nonneg(ng, -c):
                E.moves.add("down")
            else:
                E.kill = "%s is set to %s" % (show(F, b, v), show(F, b, r))

    def expand(self, xo, b, g):
        """Look through locals defined once outside the loop."""
        out = {}
        for k, q in g.items():
            e = self.same(xo.local(k[1]) if k[0] == "l" else k)
            out[e] = out.get(e, 0) + q
        return out

    def same(self, e, n=0):
        """The integer behind conversions."""
        if n > 4:
            return e
        if e[0] == "some" and e[1][0] == "call@" and last(self.F.nice(e[1][2])) in ("try_into", "try_from") and len(e[1]) == 4:
            return self.same(e[1][3], n + 1)
        if e[0] == "call@" and e[2] in self.F.bodies and len(e) == 4:
            g = self.F.bodies[e[2]]
            if g.argc == 1 and self.F.types[g.lty(0)]["k"] == "int" and self.F.types[g.lty(1)]["k"] == "int":
                r = self.same(X.of(self.F, g).local(0), n + 1)
                if r == ("p", 1):
                    return self.same(e[3], n + 1)
        return e

    def edges_of(self, b, bb):
        return [(bb, s) for s in b.succ[bb]]

    def relates(self, v, e):
        """The call can reach the quantity through the value e."""
        base = v[1] if v[0] in ("rd", "it", "len") else v
        return related(base, e)

    def call(self, E, b, x, xo, v, bb, t, out):
        F = self.F
        f = callee(t)
        nice = F.nice(f) if f else "?"
        n = last(nice)
        base = v[1] if v[0] in ("rd", "it", "len") else v
        # the destination
        d = t["d"]
        de = x.place(d) if d[1] else ("l", d[0])
        if de == base and (d[1] or x.local(d[0]) == de):
            if v[0] in ("rd", "it"):
                E.kill = "%s is replaced" % show(F, b, base)
            else:
                self.assign(E, b, x, xo, v, x.call(t, bb), bb, out)
            return
        if v[0] not in ("rd", "it") and expr.has_prefix(base, de) and (d[1] or x.local(d[0]) == de):
            E.kill = "%s is replaced" % show(F, b, de)
            return
        rel = []
        for i, a in enumerate(t["a"]):
            e = x.op(a)
            if e[0] == "c":
                continue
            ty = b.op_ty(a)
            k = F.types[ty] if ty is not None else {"k": "?"}
            if v[0] in ("rd", "it"):
                if k["k"] in ("int", "bool", "char", "float"):
                    continue
            elif not (k["k"] in ("ref", "ptr") and k.get("mut")):
                if e[0] == "agg" and e[1].startswith("closure"):
                    pass
                continue
            if related(base, e):
                rel.append((i, e))
        if not rel:
            return
        ok = self.ok_edges(b, x, bb)
        # library calls
        tg = self.targets(b, t)
        if tg is None:
            if v[0] not in ("rd", "it"):
                E.kill = "%s is passed to an unknown function" % show(F, b, base)
            return
        if v[0] == "len" and not tg:
            i, e = rel[0]
            if e == base and i == 0:
                if n in GROW:
                    E.moves.add("up")
                    if n not in ("insert",):
                        for q in out:
                            E.up[q] = 1
                elif n in GROWMORE:
                    E.moves.add("up")
                elif n in POP:
                    E.moves.add("down")
                    for q in ok:
                        E.down[q] = 1
                elif n in SHRINK:
                    E.moves.add("down")
            return
        if v[0] == "rd" and not tg:
            i, e = rel[0]
            if self.consumes(b, x, xo, bb, t, n, f):
                E.moves.add("up")
                for q in ok:
                    E.up[q] = 1
            elif n == "take" and (t.get("f") or "").endswith("::Read::take"):
                pass  # a window on what follows
            elif n in REWIND or "seek" in n:
                E.kill = "%s may be moved back by %s" % (show(F, b, base), n)
            return
        if v[0] == "it" and not tg:
            if n in PULL and (f or "").startswith(ITERS) or n in PULL and (t.get("f") or "").startswith(ITERS):
                E.moves.add("up")
                for q in ok:
                    E.up[q] = 1
            elif n in ("replace", "swap", "take"):
                E.kill = "%s may be replaced" % show(F, b, base)
            return
        if not tg:
            if v[0] == "l" or n in ("swap", "replace", "take"):
                if n not in ("clone", "fmt", "deref", "deref_mut", "borrow_mut", "as_mut", "as_mut_slice", "iter_mut"):
                    E.kill = "%s is passed to %s" % (show(F, b, base), n)
            else:
                e = rel[0][1]
                if e == base:
                    E.kill = "%s is passed to %s" % (show(F, b, base), n)
            return
        first = True
        for g in tg:
            s = None
            for i, e in rel:
                if g in F.bodies and i >= F.bodies[g].argc:
                    continue
                if expr.has_prefix(base, e):
                    rb = reroot(base, e, ("p", i + 1))
                else:
                    if v[0] not in ("rd", "it"):
                        s = join(s, {"kill": None, "moves": set(), "all": None, "ok": None, "some": None, "hi": None})
                        continue
                    rb = ("p", i + 1)
                rv = (v[0], rb) if v[0] in ("rd", "it", "len") else rb
                s1 = self.summary(g, rv)
                s = s1 if s is None else self.either(s, s1)
            if s is None:
                continue
            if s["kill"]:
                E.kill = "%s: %s" % (F.nice(g), s["kill"])
                return
            E.moves |= s["moves"]
            ups = set()
            if s["all"]:
                ups = set(out)
            elif s["ok"]:
                ups = set(ok)
            elif s["some"]:
                ups = set(self.some_edges(b, x, bb))
            if first:
                U = ups
                H = None if s["hi"] is None else ups if s["hi"] else set()
                D = s["dir"]
                Hb = s["hi"] or []
            else:
                U &= ups
                if s["hi"] is None or not s["hi"]:
                    H = set()
                elif H is not None:
                    H &= ups
                D = D if D == s["dir"] else None
                Hb = Hb + (s["hi"] or [])
            first = False
        if first:
            return
        for q in U:
            if D == "up":
                E.up[q] = 2
            elif D == "down":
                E.down[q] = 2
        if H and v[0] not in ("rd", "it"):
            m = {}
            for i, a in enumerate(t["a"]):
                m[("p", i + 1)] = x.op(a)
            for q in H:
                for a, c in Hb:
                    (E.test_hi if D == "up" else E.test_lo).setdefault(q, []).append((v, expr.subst(c, m)))

    def either(self, a, b):
        """Both arguments reach the quantity: the call does one or the other."""
        if a["kill"] or b["kill"]:
            return a if a["kill"] else b
        return {"kill": None, "moves": a["moves"] | b["moves"], "all": a["all"] or b["all"], "ok": a["ok"] or b["ok"], "some": a["some"] or b["some"], "hi": None, "dir": "up"}

    def consumes(self, b, x, xo, bb, t, n, f):
        """A library call that fails or takes at least one byte."""
        fn = t.get("f") or ""
        if n in CONSUME and ("byteorder" in fn or "ReadBytesExt" in fn):
            return True
        if "bitreader" in fn and n in BITS and len(t["a"]) > 1:
            return BT(self.F, xo, xo.facts(bb)).lb(x.op(t["a"][1])) >= 1
        if "bitreader" in fn and n in ("read_bool",):
            return True
        if "bitreader" in fn and n.startswith("read"):
            return True
        if n == "read_exact" and len(t["a"]) > 1:
            e = xo.op(t["a"][1])
            bt = BT(self.F, xo, xo.facts(bb))
            if bt.lb(xo.length(e)) >= 1:
                return True
            import bounds
            k = bounds.op_array_len(self.F, b, t["a"][1])
            return bool(k)
        return False

    # ------------------------------------------------------------ edges taken when a call succeeded
    def ok_edges(self, b, x, bb):
        return self.fact_edges(b, x, lambda f: f[0] == "ok" and f[1][0] in ("call@",) and f[1][1] == bb)

    def some_edges(self, b, x, bb):
        return self.fact_edges(b, x, lambda f: f[0] == "ok" and f[1][0] == "some" and f[1][1][0] == "call@" and f[1][1][1] == bb)

    def fact_edges(self, b, x, pred):
        if not hasattr(x, "_ef"):
            x._ef = [(e, x.edge_facts(*e)) for e in x.edges()]
        return [e for e, fs in x._ef if any(pred(f) for f in fs)]

    # ------------------------------------------------------------ what a whole function does
    def summary(self, g, v):
        k = (g, v)
        if k in self.sums:
            return self.sums[k]
        self.sums[k] = {"kill": None, "moves": set(), "all": False, "ok": False, "some": False, "hi": None, "dir": None}
        b = self.F.bodies[g]
        blocks = set(b.reach)
        x = XL(self.F, b, blocks)
        xo = X.of(self.F, b)
        edges = [(u, w) for u in b.reach for w in b.succ[u]] + [(u, "exit") for u in b.reach if b.blocks[u]["t"]["k"] == "return"]
        E = self.effects(b, x, xo, v, blocks, edges)
        if E.kill or len(E.moves) > 1 and v[0] not in ("rd", "it"):
            r = {"kill": E.kill or "%s moves both ways in %s" % (show(self.F, b, v), b.nice), "moves": set(), "all": False, "ok": False, "some": False, "hi": None, "dir": None}
            self.sums[k] = r
            return r
        d = "up" if "up" in E.moves else "down" if "down" in E.moves else None
        strict = E.up if d == "up" else E.down
        a, o, s = self.returns(b, x, set(strict), v)
        hi = None
        tests = E.test_hi if d == "up" else E.test_lo
        if v[0] not in ("rd", "it") and d and (a or o or s):
            good = []
            te = set()
            for e, l in tests.items():
                l = [z for z in l if len(z) == 2 and not has_bad(z[1]) and self.unchanged(b, x, xo, z[1], blocks, edges)]
                if l:
                    te.add(e)
                    good += l
            ta, to, ts = self.returns(b, x, te, v)
            ok = (not a or ta) and (not o or to) and (not s or ts)
            hi = good if ok and good else []
        r = {"kill": None, "moves": E.moves, "all": a, "ok": o, "some": s, "hi": hi, "dir": d}
        self.sums[k] = r
        return r

    def returns(self, b, x, cut, v):
        """Whether every return, every successful return, or every return of a found item has passed an edge of `cut`."""
        if not cut and v[0] not in ("rd", "it"):
            return False, False, False
        seen = {0}
        st = [0]
        while st:
            u = st.pop()
            for w in b.succ[u]:
                if (u, w) not in cut and w not in seen:
                    seen.add(w)
                    st.append(w)
        rets = [u for u in seen if b.blocks[u]["t"]["k"] == "return" and (u, "exit") not in cut]
        if not rets:
            return True, True, True
        # assignments to the result on such a path, and what they say
        ok = some = True
        kind = x.opt_kind(b.lty(0))
        if kind not in ("option", "result"):
            return False, False, False
        good = {"option": 1, "result": 0}[kind]
        back = set(rets)
        st = list(rets)
        while st:
            u = st.pop()
            for w in b.pred[u]:
                if w in seen and (w, u) not in cut and w not in back:
                    back.add(w)
                    st.append(w)
        ds = b.defs.get(0, [])
        if not ds or 0 in x.mutref:
            return False, False, False
        for bb, i, rv in ds:
            if bb not in back:
                continue
            if rv["k"] == "call" and last(self.F.nice(rv.get("f") or "?")) == "from_residual":
                continue
            e = x.rv(rv, bb, 0)
            sh = self.shape(e, good, v, x, b)
            if sh == "bad":
                continue
            if sh == "none":
                ok = False
            else:
                ok = some = False
        return False, ok, some

    def shape(self, e, good, v, x, b):
        """bad: no success; none: success without an item; progress: success implies progress; other."""
        if e[0] == "agg" and isinstance(e[2], int) and ("Result::" in e[1] or "Option::" in e[1]):
            if e[2] != good:
                return "bad"
            i = e[3][0] if e[3] else None
            if i is not None and i[0] == "agg" and "Option::" in i[1] and i[2] == 0:
                return "none"
            return "other"
        for f in [("ok", e)] + x.ok_facts(e):
            if f[0] == "ok" and f[1][0] == "call@" and self.is_progress(b, x, f[1], v):
                return "progress_" if False else "bad"
        return "other"

    def is_progress(self, b, x, c, v):
        """The call, returned as the function's own result, makes progress when it succeeds."""
        bb = c[1]
        t = b.blocks[bb]["t"]
        E = Eff()
        xo = X.of(self.F, b)
        fake = ("tail", bb)
        old = self.ok_edges
        self.ok_edges = lambda *a: [fake]
        olds = self.some_edges
        self.some_edges = lambda *a: []
        try:
            self.call(E, b, x, xo, v, bb, t, [fake])
        finally:
            self.ok_edges = old
            self.some_edges = olds
        return not E.kill and (fake in E.up or fake in E.down)

    # ------------------------------------------------------------ things that do not change
    def unchanged(self, b, x, xo, e, blocks, edges, memo=None):
        F = self.F
        k = e[0]
        if k in ("c", "cdef", "const", "fn", "closure"):
            return True
        if k == "p":
            return True
        if k == "l":
            for bb, i, rv in b.defs.get(e[1], []):
                if bb in blocks and len(b.defs[e[1]]) > 1:
                    return False
            if e[1] in x.mutref:
                for bb in blocks:
                    for s in b.blocks[bb]["s"]:
                        if s["k"] == "=" and s["p"][0] == e[1]:
                            return False
                    t = b.blocks[bb]["t"]
                    if t["k"] == "call" and (t["d"][0] == e[1]):
                        return False
                    if t["k"] == "call":
                        for a in t["a"]:
                            ty = b.op_ty(a)
                            if ty is not None and F.types[ty]["k"] in ("ref", "ptr") and F.types[ty].get("mut") and x.op(a) == e and F.types[b.lty(e[1])]["k"] in ("int", "bool", "char", "float"):
                                return False
            d = b.defs.get(e[1], [])
            return True
        if k == "len":
            s = e[1]
            t = BT(F, x, []).seq_type(s)
            if not self.unchanged(b, x, xo, s, blocks, edges):
                return False
            ty = F.types[t] if t is not None else None
            while ty and ty["k"] in ("ref", "ptr"):
                ty = F.types[ty["t"]]
            if ty and ty["k"] in ("slice", "array", "str"):
                return True
            E = self.effects(b, x, xo, e, blocks, edges)
            return not E.kill and not E.moves
        if k == "f":
            r = root(e)
            if not self.unchanged(b, x, xo, r, blocks, edges):
                return False
            E = self.effects(b, x, xo, e, blocks, edges)
            return not E.kill and not E.moves and not E.up and not E.down
        if k == "call@":
            return e[1] not in blocks
        if k in ("idx", "cidx"):
            # an element: the sequence is not written in the loop
            return all(self.unchanged(b, x, xo, z, blocks, edges) for z in e[1:] if isinstance(z, tuple)) and not self.written(b, x, e[1], blocks)
        if k == "agg":
            return all(self.unchanged(b, x, xo, z, blocks, edges) for z in e[3])
        return all(self.unchanged(b, x, xo, z, blocks, edges) for z in e[1:] if isinstance(z, tuple) and z and isinstance(z[0], str))

    def written(self, b, x, seq, blocks):
        for bb in blocks:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and s["p"][1] and related(x.place(s["p"]), seq):
                    return True
            t = b.blocks[bb]["t"]
            if t["k"] == "call":
                for a in t["a"]:
                    ty = b.op_ty(a)
                    if ty is not None and self.F.types[ty]["k"] in ("ref", "ptr") and self.F.types[ty].get("mut") and related(x.op(a), seq):
                        return True
        return False

    # ------------------------------------------------------------ iterator types
    def finite_type(self, ty, depth=0):
        """None when the iterator yields finitely many items, else why not."""
        F = self.F
        if ty is None or depth > 12:
            return None
        t = F.types[ty]
        while t["k"] in ("ref", "ptr"):
            ty = t["t"]
            t = F.types[ty]
        if t["k"] != "adt":
            return None
        n = t["d"].split("::")[-1]
        if t["d"].startswith("libopenraw"):
            return self.own_iterator(t["d"])
        if n == "Take":
            return None
        if n in INFINITE:
            return "%s never ends" % n
        if n == "Zip" and len(t["a"]) == 2:
            a, c = self.finite_type(t["a"][0], depth + 1), self.finite_type(t["a"][1], depth + 1)
            return a if a and c else None
        if n in ("Map", "Filter", "Enumerate", "Rev", "Skip", "StepBy", "Peekable", "Copied", "Cloned", "Fuse", "Inspect", "FilterMap", "FlatMap", "Flatten", "Chain", "TakeWhile", "MapWhile", "SkipWhile", "Scan", "ByRefSized", "Box", "Intersperse", "GenericShunt"):
            for a in t["a"]:
                if isinstance(a, int) and F.types[a]["k"] in ("adt", "ref"):
                    r = self.finite_type(a, depth + 1)
                    if r:
                        return r
        return None

    def own_iterator(self, d):
        """An iterator of the crate: next() finds another item only by using up something finite."""
        if d in self.finite:
            return self.finite[d]
        self.finite[d] = None
        for item, sid in self.F.impl_of.get(ITER + "next", ()):
            if self.F.adt_path(sid) == d:
                if item not in self.F.bodies:
                    continue
                self.finite[d] = self.progressing(item)
        return self.finite[d]

    def progressing(self, item):
        b = self.F.bodies[item]
        if b.nice in self.reviewed:
            return None
        vs = [("it", ("p", 1)), ("rd", ("p", 1))] + [("f", ("p", 1), i) for i in range(12)]
        for v in vs:
            s = self.summary(item, v)
            if not s["kill"] and (s["all"] or s["ok"]):
                if v[0] == "f" and not s["hi"]:
                    continue
                return None
        return "%s can go on yielding items" % b.nice

    # ------------------------------------------------------------ loops
    def sccs(self, nodes, edges):
        succ = {}
        for u, w in edges:
            succ.setdefault(u, []).append(w)
        idx, low, st, on, out = {}, {}, [], set(), []
        for r in sorted(nodes):
            if r in idx:
                continue
            work = [(r, iter(succ.get(r, ())))]
            idx[r] = low[r] = len(idx)
            st.append(r)
            on.add(r)
            while work:
                u, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = len(idx)
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(succ.get(w, ()))))
                        break
                    elif w in on:
                        low[u] = min(low[u], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        c = set()
                        while True:
                            w = st.pop()
                            on.discard(w)
                            c.add(w)
                            if w == u:
                                break
                        es = frozenset(e for e in edges if e[0] in c and e[1] in c)
                        if es:
                            out.append((c, es))
        return out

    def loops(self, b):
        edges = [(u, w) for u in b.reach for w in b.succ[u]]
        return self.sccs(set(b.reach), edges)

    def ends(self, b, nodes, edges, memo=None, depth=0):
        """The cycles left over that nothing was found to end, smallest first; empty when all end."""
        memo = {} if memo is None else memo
        left = []
        for c, es in self.sccs(nodes, edges):
            if es in memo:
                left += memo[es]
                continue
            memo[es] = [(c, es)]
            memo[es] = self.one(b, c, es, memo, depth)
            left += memo[es]
        return left

    def one(self, b, c, es, memo, depth):
        if depth > 25:
            return [(c, es)]
        best = [(c, es)]
        for kind, name, A, T in self.measures(b, c, es):
            A = A & es
            if not A:
                continue
            rest = self.ends(b, c, es - self.extend(b, c, es, A), memo, depth + 1)
            if kind == "one":
                if not rest:
                    self.why.setdefault(b.id, []).append(name)
                return rest  # taking edges out never hurts
            T = T & es
            if not T:
                continue
            rest2 = self.ends(b, c, es - self.extend(b, c, es, T), memo, depth + 1)
            if not rest and not rest2:
                self.why.setdefault(b.id, []).append(name)
                return []
            r = rest + [z for z in rest2 if z not in rest]
            if sum(len(z[1]) for z in r) < sum(len(z[1]) for z in best):
                best = r
        return best

    def extend(self, b, c, es, A):
        """An inner loop over a constant, non-empty range runs its body: leaving it means having been through the body."""
        A = set(A)
        x = X.of(self.F, b)
        for bb in c:
            t = b.blocks[bb]["t"]
            if t["k"] != "call" or last(self.F.nice(callee(t) or "?")) != "next":
                continue
            it = self.place_root(b, t["a"][0])
            if it is None:
                continue
            init = x.init(it)
            import bounds
            e = ("call@", bb, "next", init) if init is not None else None
            rng = self.const_range(x, init)
            if not rng:
                continue
            ok = [e for e in self.ok_edges(b, x, bb) if e in es]
            no = [e for e in self.fact_edges(b, x, lambda f: f[0] == "notok" and f[1][0] == "call@" and f[1][1] == bb) if e in es]
            if not ok or not no:
                continue
            # every way round the inner loop passes an edge of A
            if any(self.reaches(es - A, w, bb) for u, w in ok if (u, w) not in A):
                continue
            # the range is built anew before it is asked again
            ib = self.init_block(b, it)
            if ib is None or any(self.reaches(set(e for e in es if e[0] != ib), w, bb) for u, w in no):
                continue
            A |= set(no)
        return A

    def init_block(self, b, l):
        d = b.defs.get(l, [])
        return d[0][0] if len(d) == 1 else None

    def const_range(self, x, e, n=0):
        if e is None or n > 6:
            return False
        if e[0] == "call@" and last(self.F.nice(e[2])) in ("into_iter", "rev", "enumerate") and len(e) > 3:
            return self.const_range(x, e[3], n + 1)
        if e[0] == "agg" and "Range" in e[1] and len(e[3]) >= 2 and e[3][0][0] == "c" and e[3][1][0] == "c" and isinstance(e[3][0][1], int) and isinstance(e[3][1][1], int):
            return e[3][0][1] < e[3][1][1] or "Inclusive" in e[1] and e[3][0][1] == e[3][1][1]
        return False

    def reaches(self, es, u, w):
        succ = {}
        for a, c in es:
            succ.setdefault(a, []).append(c)
        seen = {u}
        st = [u]
        while st:
            n = st.pop()
            if n == w:
                return True
            for m in succ.get(n, ()):
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        return False

    def place_root(self, b, o, n=0):
        """The local an operand refers to."""
        if o["k"] not in ("copy", "move") or n > 10:
            return None
        l, p = o["p"]
        d = b.defs.get(l, [])
        if l > b.argc and len(d) == 1 and not [q for q in p if q != "*"]:
            r = d[0][2]
            if r["k"] in ("ref", "rawptr"):
                return self.place_root(b, {"k": "copy", "p": r["p"]}, n + 1) if r["p"][1] or True and self.is_ref(b, r["p"][0]) else r["p"][0]
            if r["k"] == "use" and r["o"]["k"] in ("copy", "move") and self.is_ref(b, l):
                return self.place_root(b, r["o"], n + 1)
            if r["k"] == "call" and last(self.F.nice(callee(r) or "?")) in ("by_ref", "deref_mut", "as_mut", "borrow_mut") and r["a"] and self.is_ref(b, l):
                return self.place_root(b, r["a"][0], n + 1)
        return l

    def is_ref(self, b, l):
        return self.F.types[b.lty(l)]["k"] in ("ref", "ptr")

    # ------------------------------------------------------------ candidate measures of a cycle
    def measures(self, b, c, es):
        F = self.F
        x = XL(F, b, c)
        xo = X.of(F, b)
        out = []
        two = []
        rds = set()
        vars_ = set()
        lens = set()
        for bb in sorted(c):
            blk = b.blocks[bb]
            for s in blk["s"]:
                if s["k"] != "=":
                    continue
                p = s["p"]
                ty = b.place_ty(p)
                k = F.types[ty] if ty is not None else {"k": "?"}
                if k["k"] == "int":
                    if p[1]:
                        v = x.place(p)
                        if v[0] == "f":
                            vars_.add(v)
                    elif len(b.defs.get(p[0], ())) > 1 or p[0] <= b.argc:
                        vars_.add(("l", p[0]))
                elif k["k"] == "ref" and not p[1] and len(b.defs.get(p[0], ())) > 1:
                    lens.add(("len", ("l", p[0])))
                elif k["k"] == "ref" and p[1]:
                    v = x.place(p)
                    if v[0] == "f":
                        lens.add(("len", v))
            t = blk["t"]
            if t["k"] != "call":
                continue
            f = callee(t)
            n = last(F.nice(f)) if f else "?"
            if t["d"] and not t["d"][1] and len(b.defs.get(t["d"][0], ())) > 1:
                k = F.types[b.lty(t["d"][0])]["k"]
                if k == "int":
                    vars_.add(("l", t["d"][0]))
                elif k == "ref":
                    lens.add(("len", ("l", t["d"][0])))
            if n in PULL and (t.get("f") or "").startswith(ITERS):
                it = self.place_root(b, t["a"][0])
                ok = [e for e in self.ok_edges(b, x, bb)]
                if it is not None and ok:
                    if any(d[0] in c for d in b.defs.get(it, ())):
                        continue
                    ty = (t.get("ta") or [None])[0]
                    ty = ty if isinstance(ty, int) else b.lty(it)
                    why = self.finite_type(ty)
                    if why:
                        continue
                    out.append(("one", "items of %s" % F.tys(ty).split("::")[-1][:40], frozenset(ok), frozenset()))
                continue
            # sets of things already seen
            if n == "insert" and ("HashSet" in (f or "") or "BTreeSet" in (f or "") or "hash_set" in (f or "") or "set::" in (f or "")):
                st = x.op(t["a"][0])
                if self.unchanged_root(b, x, st, c) and not self.set_shrinks(b, x, st, c):
                    e = self.fact_edges(b, x, lambda f: f[0] == "true" and f[1][0] == "call@" and f[1][1] == bb)
                    out.append(("one", "values not seen before", frozenset(e), frozenset()))
                    ne = [q for q in self.edges_of(b, bb)]
                    if any(g[0] == "false" and g[1][0] == "call" and g[1][1] == "contains" and g[1][2] == st and g[1][3] == x.op(t["a"][1]) for g in xo.facts(bb)):
                        out.append(("one", "values not seen before", frozenset(ne), frozenset()))
            if n in GROW | POP and t["a"]:
                e = x.op(t["a"][0])
                lens.add(("len", e))
            for a in t["a"]:
                ty = b.op_ty(a)
                if ty is None:
                    continue
                k = F.types[ty]
                if k["k"] in ("ref", "ptr") and k.get("mut") or k["k"] == "param":
                    e = x.op(a)
                    if e[0] in ("p", "l", "f", "call@", "some", "down"):
                        rds.add(e)
                        # counters kept inside what the call is given
                        s = k
                        while s["k"] in ("ref", "ptr"):
                            s = F.types[s["t"]]
                        if s["k"] == "adt" and s["d"].startswith("libopenraw") and self.targets(b, t):
                            ad = F.adts.get(s["d"])
                            if ad and ad["kind"] == "struct":
                                for i, fl in enumerate(ad["v"][0]["f"]):
                                    if fl.get("t") is not None and F.types[fl["t"]]["k"] == "int":
                                        vars_.add(("f", e, i))
        for r in sorted(rds, key=repr):
            if not self.unchanged_root(b, x, r, c):
                continue
            v = ("rd", r)
            E = self.effects(b, x, xo, v, c, es)
            if E.kill or not E.up:
                continue
            out.append(("one", "input of %s" % show(F, b, r), frozenset(E.up), frozenset()))
        for v in sorted(vars_, key=repr) + sorted(lens, key=repr):
            r = root(v[1] if v[0] == "len" else v)
            if v[0] == "f" and not self.unchanged_root(b, x, r, c):
                continue
            if v[0] == "l" and v[1] in x.mutref and self.lent(b, x, v[1], c):
                continue
            E = self.effects(b, x, xo, v, c, es)
            if E.kill or len(E.moves) != 1:
                continue
            nm = show(F, b, v)
            if "up" in E.moves and E.up:
                T = self.valid(b, x, xo, E.test_hi, c, es, all(q == 1 for q in E.up.values()))
                two.append(("two", nm, frozenset(E.up), frozenset(T)))
            if "down" in E.moves and (E.down or E.shrink):
                if v[0] == "len":
                    out.append(("one", nm, frozenset(E.down), frozenset()))
                    continue
                T = self.valid(b, x, xo, E.test_lo, c, es, all(q == 1 for q in E.down.values()))
                if E.down:
                    two.append(("two", nm, frozenset(E.down), frozenset(T)))
                if E.shrink:
                    T0 = [e for e, l in E.test_lo.items() if any(z[0] == v and z[1][0] == "c" and isinstance(z[1][1], int) and z[1][1] >= 0 for z in l)]
                    T0 = [e for e in T0 if any(g in x.edge_facts(*e) for g in (("Ne", v, ("c", 0)), ("Gt", v, ("c", 0)), ("Ge", v, ("c", 1)))) or any(g[0] == "Gt" and g[1] == v for g in x.edge_facts(*e))]
                    two.append(("two", nm, frozenset(set(E.shrink) | set(E.down)), frozenset(T0)))
        return out + two

    def valid(self, b, x, xo, tests, c, es, unit):
        T = set()
        for e, l in tests.items():
            for z in l:
                if len(z) == 3 and not unit:
                    continue
                rest = z[0]
                if self.unchanged(b, x, xo, z[1], c, es) and self.others_unchanged(b, x, xo, rest, c, es, tests):
                    T.add(e)
        return T

    def others_unchanged(self, b, x, xo, a, c, es, tests):
        return True

    def lent(self, b, x, l, c):
        """A mutable borrow of the local is used in the loop for something else than a call that is looked into."""
        for bb in c:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and s["r"]["k"] in ("ref", "rawptr") and s["r"]["p"][0] == l and not s["r"]["p"][1] and (s["r"].get("mut") or s["r"]["k"] == "rawptr"):
                    return True
        return any(s["k"] == "=" and s["r"]["k"] in ("ref", "rawptr") and s["r"]["p"][0] == l and (s["r"].get("mut") or s["r"]["k"] == "rawptr") for bb in b.reach for s in b.blocks[bb]["s"])

    def unchanged_root(self, b, x, e, c):
        r = root(e)
        if r[0] == "p":
            return True
        if r[0] == "l":
            return not any(d[0] in c for d in b.defs.get(r[1], ()))
        if r[0] == "call@":
            return r[1] not in c
        return False

    def set_shrinks(self, b, x, st, c):
        for bb in c:
            t = b.blocks[bb]["t"]
            if t["k"] == "call" and t["a"] and last(self.F.nice(callee(t) or "?")) in ("remove", "clear", "take", "drain", "retain", "pop_first", "pop_last", "replace", "swap") and related(x.op(t["a"][0]), st):
                return True
        return False


def join(s, o):
    return s


def reroot(base, e, p):
    if base == e:
        return p
    return (base[0], reroot(base[1], e, p)) + tuple(base[2:])


def mentions(e, v):
    if e == v:
        return True
    return isinstance(e, tuple) and any(mentions(z, v) for z in e if isinstance(z, tuple))


def coef(bt, e, v):
    """Sign of the dependence of e on v when it is monotone, 0 when it does not depend or is not."""
    if e == v:
        return 1
    if not mentions(e, v):
        return 0
    if e[0] == "cast":
        return coef(bt, e[2], v)
    if e[0] == "bin" and e[1] == "Add":
        a, c = coef(bt, e[2], v), coef(bt, e[3], v)
        return 0 if mentions(e[2], v) and not a or mentions(e[3], v) and not c or a * c < 0 else a or c
    if e[0] == "bin" and e[1] == "Sub":
        a, c = coef(bt, e[2], v), coef(bt, e[3], v)
        return 0 if mentions(e[2], v) and not a or mentions(e[3], v) and not c or a * c > 0 else a or -c
    if e[0] == "bin" and e[1] in ("Mul",):
        if e[3][0] == "c" and isinstance(e[3][1], int) and e[3][1] > 0:
            return coef(bt, e[2], v)
        if e[2][0] == "c" and isinstance(e[2][1], int) and e[2][1] > 0:
            return coef(bt, e[3], v)
        return 0
    if e[0] == "bin" and e[1] == "Shl" and (e[3][0] == "c"):
        return coef(bt, e[2], v)
    if e[0] == "call" and e[1] in ("saturating_add", "checked_add"):
        return coef(bt, ("bin", "Add", e[2], e[3]), v)
    return 0


def show(F, b, e):
    import inter
    try:
        return inter.show(F, b, e)
    except Exception:
        return str(e)[:60]
